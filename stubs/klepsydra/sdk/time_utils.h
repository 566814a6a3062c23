// Declarations only: the SDK is not part of this repository.
#ifndef KPSR_TIME_UTILS_H
#define KPSR_TIME_UTILS_H
namespace kpsr {
struct TimeUtils
{
    static long long unsigned int getCurrentNanosecondsAsLlu();
    static long long unsigned int getCurrentMillisecondsAsLlu();
    static long getCurrentNanoseconds();
    static long getCurrentMilliseconds();
};
} // namespace kpsr
#endif
