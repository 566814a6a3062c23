from . import P
S = "core/modules/socket_mdlw/src/"
I = "core/modules/socket_mdlw/include/klepsydra/socket_core/"
ALLF = [S + "base_socket.cpp", S + "data_socket.cpp", S + "connect_socket.cpp", S + "server_socket.cpp", I + "data_socket.tpp"]

P("N01", "Every socket descriptor has one owner and is closed exactly once",
  """A socket object is only made from a valid descriptor; every descriptor obtained from the system is owned by exactly one socket object when the call returns and is closed exactly once when it throws.
  close() closes the socket's own descriptor at most once, leaves the object invalid whatever the system reports, returns only when closing succeeded or was interrupted, and refuses closed or moved sockets. The destructor closes an open
  descriptor once, never a closed or moved one, and never throws. Moving and swapping keep one owner per descriptor; copying does not compile.""",
  "inputs histories fault_sequences", "every outcome of every system call, every sequence of moves, closes and destruction",
  "There are no socket tests; a double close or a leak only hurts when another thread reuses the number or a call fails.",
  ALLF, [("ownership", S + "base_socket.cpp"), ("acquisition", S + "connect_socket.cpp, server_socket.cpp")], [("socketId", "owned descriptor, -1 when closed or moved", I + "base_socket.h")])
P("N02", "A socket that was connected, bound, listening or accepted really is",
  """The constructors of connecting and listening sockets return only when connect, or bind and then listen, succeeded on the socket's own descriptor with the given port in network byte order and the given host, or the given path cut
  to what the address holds; otherwise they throw. accept() waits at most the given time for its own descriptor, refuses closed sockets and descriptors that do not fit the wait, accepts only when the wait reported a
  connection, and returns only a connection the system reported as good.""",
  "inputs fault_sequences", "every outcome of every system call, every port, host, path and descriptor number",
  "Failing system calls and over-long paths do not occur in tests, and there are none for this module.",
  ALLF, [("connect", S + "connect_socket.cpp"), ("bind, listen, accept", S + "server_socket.cpp")])
P("N03", "Socket transfers are complete, in order and in bounds",
  """Writing sends every byte of the buffer exactly once and in order before it returns: each write starts where the last successful one ended and asks for exactly the rest. Reading fills the buffer from the front without leaving it and
  returns exactly the number of bytes read, stopping only when the buffer is full, the stream ended or was reset, or the scan function, asked with the number of bytes read so far, says so. Interrupted and postponed calls are retried; all other
  errors throw and never count as progress.""",
  "inputs fault_sequences histories", "every buffer size and every sequence of partial transfers and errors",
  "Partial transfers, interrupted calls and resets happen at the system's whim; no test produces them.",
  ALLF, [("writing", S + "data_socket.cpp putMessageData"), ("reading", I + "data_socket.tpp getMessageData")])
P("N04", "The simple protocol delivers a whole message and nothing else",
  """Sending writes exactly the message and then signals its end once by shutting down the sending direction; a failed shutdown throws. Receiving discards the old contents, appends what is read until the stream ends, never reads beyond the
  storage of the string, always has room for more, and leaves exactly the bytes read in the message, also when reading fails.""",
  "inputs fault_sequences", "every message length and every split of it by the network",
  "The message has to be longer than the first buffer, or to arrive in parts, for most mistakes to show.",
  [S + "protocol_simple.cpp", I + "string_resizer.h", S + "data_socket.cpp"], [("protocol", S + "protocol_simple.cpp"), ("string sizing", I + "string_resizer.h")])
