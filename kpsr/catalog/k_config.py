from . import P
D = "core/modules/core/include/klepsydra/core/"
S = "core/modules/core/src/"

P("K01", "Every line of a configuration file becomes one entry, is blank, or is refused",
  """Every line up to the end of the file is read; text from the first semicolon on and lines of blanks are ignored. Every other line adds exactly one entry: the key is the text before the first equals sign up to the first blank after it began,
  the value all text after it, both without surrounding blanks. A line without separator, key or value, a second value for a key and a file that cannot be opened are refused with invalid_argument, nothing else is, and entries are never replaced.""",
  "inputs", "every text", "No stable test reads a property file; the unusual lines (comments, tabs, several separators, repeated keys) are unbounded in number.",
  [D + "config_file.h"], [("extractKeys", D + "config_file.h")], [("contents", "entries by key", D + "config_file.h")])
P("K02", "Configured values are converted or refused, and absent ones are the default",
  """Looking up a key that is absent gives exactly the default. One that is there gives the value of its own entry: text as it stands, anything else extracted once from that text, in base 16 exactly if the text contains 0x.
  A value is returned only after extraction succeeded; otherwise invalid_argument is thrown. keyExists() tells whether the key is there.""",
  "inputs", "every stored text and every value type that can be extracted from a stream",
  "No stable test converts values; malformed numbers, hexadecimal ones and texts with blanks each take another path.",
  [D + "config_file.h", D + "prop_file_convert.h"], [("getValueOfKey", D + "config_file.h"), ("string_to_T", D + "prop_file_convert.h")], [("contents", "entries by key", D + "config_file.h")])
P("K03", "Property stores return what was stored last, keep types, and say what happened",
  """get succeeds exactly if a property of that name (and, in the dynamic store, of that type) is there, and then hands out its value; otherwise the target keeps its own. set stores or replaces the value under that name; the dynamic store refuses,
  unchanged, to replace a property of another type, and stores that a property was copied to keep theirs. Copying visits every property of the source once, stores it with its value under prefix/name (the name without prefix), keeps properties that are already there, and reports whether one was in the way.""",
  "histories inputs", "every sequence of operations, for any value type, names and prefixes",
  "No stable test uses the property stores; overwriting, type conflicts and conflicting copies are histories of several steps.",
  [D + "configuration_properties.h", D + "property.h"], [("stores", D + "configuration_properties.h"), ("types", D + "property.h")], [("_properties", "properties by full name", D + "configuration_properties.h")])
P("K04", "Environments use full keys for every kind of property and load all or nothing",
  """Each getter asks the store its setter writes to, once, under the key made of name and root node; it hands out what was found, or the default if nothing was, and reports which. Loading a file reads it aside, so that a file that cannot be read reports
  failure and changes nothing; otherwise all four kinds of properties are copied below the node and conflicts are reported. Export and import cover all four kinds under separate names. Property-file environments hand out the file's value or the default.""",
  "inputs fault_sequences", "every key, root node and content, and every failure of the archive",
  "These classes need the SDK's headers, without which their tests are not built here.",
  [S + "configuration_environment.cpp", D + "configuration_environment.h", S + "prop_file_environment.cpp"], [("environment", S + "configuration_environment.cpp"), ("file environment", S + "prop_file_environment.cpp")], [("_stringProperties", "properties of one kind", D + "configuration_environment.h")])
P("K05", "Text archives hold every property once and read back to the same properties",
  """Writing a map passes every entry once, under its key; reading it starts from an empty map, reads until no name is left, and keeps each value under the name it was read from. Properties, property stores and the ZMQ environment record
  pass every one of their fields once, under a name of its own.""",
  "inputs", "every map and every text", "No stable test archives properties.",
  [D + "property.h", D + "configuration_properties.h", "core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_environment_data.h"], [("map archives", D + "property.h")], [("map", "entries by name", D + "property.h")])
P("K06", "Event records have a value in every field, and copies carry them all",
  """Every constructor of Sensor, EventData and ZMQEnvironmentData gives every field a value: what was passed for it, or a definite default, with timestamps that are not passed being the current time in milliseconds.
  Copy construction, assignment and clone() take every field from the same field of the source.""",
  "inputs", "every constructor, assignment and copy, for any values", "Tests compare the fields they set; a field that is left out shows as whatever was in memory before.",
  [D + "sensor.h", "core/modules/mem_mdlw/include/klepsydra/mem_core/basic_event_data.h", "core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_environment_data.h"], [("Sensor", D + "sensor.h")], [("seq", "sequence number of the event", D + "sensor.h")])
