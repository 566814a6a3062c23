from . import P
C = "core/modules/core/include/klepsydra/core/"
S = [C + "lock_free_stack.h"]
O = [C + "smart_object_pool.h", C + "lock_free_stack.h"]

P("P01", "A lock-free stack node is owned by one thread between take and give",
  """In every interleaving of push and pop on the lock-free stack, a slot is taken from exactly one of the two lists by a compare-and-exchange that
  installs its successor and changes the version tag, is written or read only while it is owned, and is then given to the other list exactly once, linked in front of that list's current
  head. push therefore stores the given value and returns true, or changes nothing and returns false when no slot is free; pop delivers the stored value
  and returns true, or changes nothing and returns false when the stack is empty. Nothing is lost, duplicated or read half written.""",
  "schedules inputs histories", "every interleaving of any number of pushing and popping threads and every content of the two lists",
  "The unit test runs one push and pop sequence; a stale successor, a missing version tag or a slot used after it was handed back needs two threads interleaving inside one compare-and-exchange loop.",
  S, [("take: compare-and-exchange of the list head by its successor", S[0] + " _pop"), ("give: link and compare-and-exchange", S[0] + " _push"),
      ("slot access between the two", S[0] + " push/pop")],
  [("head", "filled slots", S[0]), ("free_nodes", "free slots", S[0]), ("aba", "version tag of a list head", S[0])], ["push", "pop"])
P("P02", "A new lock-free stack holds exactly its capacity, initialised and linked",
  """A stack built with capacity n (1 to 65535, anything else is rejected with invalid_argument) has n slots, all of them filled: the list of filled slots links slot 0, 1, ..., n-1 and ends
  there, the list of free slots is empty, and the initialiser (if one is given) was called exactly once on every slot.""",
  "inputs configurations", "every capacity and every initialiser",
  "Tests use a few small capacities; wrap-around of the 16 bit index and a slot left out at one end only show at other sizes.",
  S, [("preallocation loop", S[0] + " LockFreeStack::LockFreeStack")])
P("P03", "A pooled object has exactly one owner and goes back to its own pool",
  """acquire hands over one object that nobody else holds, wrapped so that releasing it returns that very object to the pool it came from exactly once; if the pool no longer exists the object is
  destroyed exactly once instead and the pool is not touched. An empty pool makes acquire count a failure and throw out_of_range without handing out anything. The pool's constructor makes `size` objects, each
  initialised once; its destructor finalises and destroys every object present exactly once.""",
  "schedules histories inputs", "every sequence of acquisitions and releases, and every order of pool and object destruction",
  "No test of this repository exercises the pool; double release, release after the pool is gone, and the failure path need specific histories.",
  O, [("returning deleter", O[0] + " ReturnToPool_Deleter"), ("acquire", O[0] + " acquire"), ("life cycle", O[0] + " SmartObjectPool/~SmartObjectPool")],
  [("this_ptr_", "liveness token of the pool", O[0]), ("pool_", "stack of available objects", O[0])], ["acquire", "release of the pointer"])
