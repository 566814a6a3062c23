// Instantiates the disruptor for analysis.  KSIZE: buffer size, KWS: wait strategy.
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>

#ifndef KSIZE
#define KSIZE 8
#endif
#ifndef KWS
#define KWS blocking_wait_strategy
#endif
#ifndef KEV
#define KEV long
#endif

namespace disruptor4cpp {
using ws = KWS;
using mrb = ring_buffer<KEV, KSIZE, ws, producer_type::multi, sequence>;
using srb = ring_buffer<KEV, KSIZE, ws, producer_type::single, sequence>;
template class ring_buffer<KEV, KSIZE, ws, producer_type::multi, sequence>;
template class ring_buffer<KEV, KSIZE, ws, producer_type::single, sequence>;
template class multi_producer_sequencer<KSIZE, ws, sequence>;
template class single_producer_sequencer<KSIZE, ws, sequence>;
template class sequence_barrier<multi_producer_sequencer<KSIZE, ws, sequence>>;
template class sequence_barrier<single_producer_sequencer<KSIZE, ws, sequence>>;
template class batch_event_processor<mrb>;
template class batch_event_processor<srb>;
template class no_op_event_processor<mrb>;
template class no_op_event_processor<srb>;
template class fixed_sequence_group<sequence>;
long kpsr_use(sequence &s, const sequence &cs, int64_t v)
{
    sequence a(v);
    s.set(v);
    return s.get() + cs.get() + s.compare_and_set(v, v + 1) + s.increment_and_get() + s.add_and_get(v) + a.get();
}
} // namespace disruptor4cpp
