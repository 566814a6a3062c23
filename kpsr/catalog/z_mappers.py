from . import P
D = "serialization/modules/serialization/include/klepsydra/serialization/"

P("Z01", "The byte mapper carries whole events and never reads beyond a message",
  """Writing an event makes the message exactly the bytes of the event, whatever the message held before. Reading fills every byte of the event from the same byte of the message and writes nothing else; a message that is too short
  is refused with an exception and no byte beyond its end is ever read.""",
  "inputs", "every message length and content and every trivially copyable event type",
  "The only test reads back a message it has just written; messages that come from a network or another process have any length.",
  [D + "void_caster_mapper.h"], [("fromMiddleware", D + "void_caster_mapper.h"), ("toMiddleware", D + "void_caster_mapper.h")], [("message", "byte vector handed to or got from the middleware", D + "void_caster_mapper.h")])
P("Z02", "The identity mapper copies the whole event in both directions",
  """Between equal types, reading makes the event a copy of the message and writing makes the message a copy of the event, by the type's own assignment; the source is never changed.""",
  "inputs", "every event type and value", "No test uses the identity mapper on its own.",
  [D + "identity_mapper.h"], [("copies", D + "identity_mapper.h")], [("event", "converted object", D + "identity_mapper.h")])
P("Z03", "Text and binary messages hold the complete event and read back the same way",
  """Writing passes exactly the event, once, through an archive over the message's buffer; the archive is finished before the text is taken, the message is replaced by all of it, and nothing is written with reduced precision. Reading passes
  the event once through the matching archive, under the same name, over exactly the message. Failures of the archive reach the caller.""",
  "inputs fault_sequences", "every serialisable event type and value and every malformed message",
  "No test covers these mappers; an unfinished archive or a name that differs only shows with particular consumers.",
  [D + "binary_cereal_mapper.h", D + "json_cereal_mapper.h"], [("text", D + "json_cereal_mapper.h"), ("binary", D + "binary_cereal_mapper.h")], [("message", "text or stream buffer", D + "json_cereal_mapper.h")])
P("Z04", "The mapper headers can be used together, in any order",
  """Each mapper header compiles on its own and together with every other one in any order, and the mapper for each message type is then the usable one of its header, taking its source as constant.""",
  "configurations", "every mapper header alone and every ordered pair",
  "Tests include one mapper header at a time.",
  [D + h for h in ("identity_mapper.h", "void_caster_mapper.h", "binary_cereal_mapper.h", "json_cereal_mapper.h", "mapper.h")], [("guards", D)], [("Mapper", "specialisation that is selected", D + "mapper.h")])
