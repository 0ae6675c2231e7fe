    { "at once [0o 1o 2o | 0t | 1t | ] 2w q64", 3, 4, 3, 5, 2, 3 },
    { "at once [0o 1o 2o | 0t | 1t | 2b] 2w q64", 2, 3, 2, 3, 1, 2 },
    { "at once [0o 1o 2O | 0t 0b | 1t 2t | ] 2w q64", 1, 2, 2, 3, 0, 1 },
    { "in order [0o 1o | 0t 0t 0b |  | ] 2w q64", 4, 5, 5, 7, 2, 4 },
    { "in order [0o 1o 2o | 0t 0f |  | ] 2w q64", 4, 5, 6, 7, 3, 4 },
    { "in order [0o 1o 2o | 0t 0t | 1t 1t | ] 2w q64", 1, 2, 2, 3, 0, 1 },
    { "order under pressure [0o 1o | 1w 0t 0l 1u |  | ] 2w q64", 4, 5, 5, 7, 2, 4 },
    { "joining [0o 1o | 0t | 2o | ] 2w q64", 2, 3, 3, 4, 1, 2 },
    { "joining [0o 1o | 0t 0t | 2o 2y 2t | ] 2w q64", 1, 1, 1, 2, 0, 1 },
    { "joining at once [0o | 1o 1y 1t | 2o 2y 2t | ] 2w q64", 0, 1, 1, 2, 0, 0 },
    { "joining at once [0o 3O | 0t | 1o | 2o] 2w q64", 1, 2, 2, 3, 0, 1 },
    { "leaving [0o 1o 2o | 0t | 2c | ] 2w q64", 3, 4, 3, 5, 2, 3 },
    { "leaving [0o 1o 2o | 0t | 2e | ] 2w q64", 3, 4, 4, 5, 2, 3 },
    { "leaving [0o 1o 2o | 0t | 2x | ] 2w q64", 3, 4, 4, 5, 2, 3 },
    { "leaving [0o 1o 2o | 0t | 2r | ] 2w q64", 2, 3, 3, 5, 1, 2 },
    { "the sender leaves [0o 1o 2o | 0t 0c |  | ] 2w q64", 5, 6, 7, 7, 3, 4 },
    { "the sender leaves [0o 1o 2o | 0t 0e | 1t | ] 2w q64", 2, 3, 3, 4, 1, 2 },
    { "the sender leaves [0o 1o 2o | 0t 0b 0e | 1x | ] 2w q64", 2, 2, 2, 3, 1, 2 },
    { "replaced [0o 1o 2o | 0t | 2x 3O 3y 3t | ] 2w q64", 1, 2, 2, 3, 0, 1 },
    { "replaced [0o 1o 2o | 0t 0t | 2r 3o | ] 2w q64", 1, 2, 2, 3, 0, 1 },
    { "replaced [0o 1o 2O | 0t | 2x 3o 3y | 1t] 2w q64", 0, 1, 1, 2, 0, 0 },
    { "partial writes [0o 1o 2o | 0t | 1t | ] 2w q64 faults", 2, 3, 2, 3, 1, 2 },
    { "three workers [0o 1o 2o | 0t | 1t | 2t] 3w q64", 1, 2, 2, 3, 0, 1 },
    { "connecting [ | 0P | 1O | ] 2w q64", 2, 3, 3, 4, 1, 2 },
    { "connecting [ | 0P | 1O | 2o] 2w q64", 1, 2, 2, 3, 1, 1 },
    { "connecting in parts [ | 0hP 0H | 1O | ] 2w q64", 2, 3, 3, 4, 1, 2 },
    { "connecting, then data [ | 0kO 0R 0y 0t 0e |  | ] 2w q64", 2, 3, 3, 5, 1, 2 },
    { "data during service [0O | 0t 0t 0b |  | ] 2w q64", 4, 5, 5, 7, 3, 4 },
    { "data during service [0P | 0m 0f |  | ] 2w q64", 4, 5, 6, 7, 3, 4 },
    { "data during service [0P | 0f 0p 0t |  | ] 2w q64", 4, 5, 5, 7, 2, 4 },
    { "end of stream during service [0O | 0t 0e |  | ] 2w q64", 5, 7, 7, 7, 3, 5 },
    { "end during service [0O 1P | 0t 0x | 1t 1e | ] 2w q64", 2, 3, 2, 3, 1, 2 },
    { "close during service [0O | 0t 0c |  | ] 2w q64", 5, 7, 7, 7, 3, 5 },
    { "reset during service [0P | 0t 0r |  | ] 2w q64", 5, 7, 7, 7, 3, 5 },
    { "becoming writable [0O | 0w 0t 0u 0t |  | ] 2w q64", 4, 6, 6, 7, 2, 4 },
    { "becoming writable [0P | 0w 0t 0l 0W 0u |  | ] 2w q64", 3, 5, 4, 6, 2, 3 },
    { "becoming writable [0o 1o | 0w 1l 0W 0u 1t 0t |  | ] 2w q64", 2, 3, 2, 4, 1, 2 },
    { "becoming writable while others write [0o 1o 2o | 0z 1t | 2t 0u | ] 2w q64", 2, 3, 2, 3, 1, 1 },
    { "becoming writable, end of stream [0O | 0w 0t 0e 0u |  | ] 2w q64", 4, 6, 6, 7, 3, 4 },
    { "failing accept [ | 0P | 1O | ] 2w q64 faults", 2, 2, 2, 3, 1, 1 },
    { "failing writes [0O 1o 2o | 0t | 1t | ] 2w q64 faults", 2, 3, 2, 4, 1, 2 },
    { "full queue [0O 1O 2O | 0t | 1t | 2t] 1w q1", 3, 3, 3, 5, 2, 2 },
    { "full queue [0o 1o 2O | 0t 0b | 1t 1e | 2t 2x] 1w q1", 1, 1, 1, 1, 0, 1 },
    { "full queue [0O | 0t | 1O | 2O] 1w q1", 2, 4, 3, 4, 1, 2 },
    { "full queue [0O 1O 2P 3P | 0w 0t | 1t 2t | 3t 0u] 1w q1", 1, 1, 1, 1, 0, 0 },
    { "full queue [0O 1O 2O | 0t | 1t | 2t] 2w q1", 3, 3, 3, 4, 2, 3 },
    { "full queue [0o 1o 2O | 0t 0b | 1t 1e | 2t 2x] 2w q1", 1, 1, 1, 1, 0, 0 },
    { "full queue [0O | 0t | 1O | 2O] 2w q1", 2, 2, 3, 3, 1, 1 },
    { "full queue [0O 1O 2P 3P | 0w 0t | 1t 2t | 3t 0u] 2w q1", 1, 1, 1, 1, 0, 0 },
    { "full queue [0O 1O 2O | 0t | 1t | 2t] 1w q2", 3, 3, 3, 5, 1, 2 },
    { "full queue [0o 1o 2O | 0t 0b | 1t 1e | 2t 2x] 1w q2", 1, 1, 1, 2, 0, 0 },
    { "full queue [0O | 0t | 1O | 2O] 1w q2", 2, 3, 3, 3, 1, 2 },
    { "full queue [0O 1O 2P 3P | 0w 0t | 1t 2t | 3t 0u] 1w q2", 1, 1, 1, 2, 0, 1 },
    { "full queue [0O 1O 2O | 0t | 1t | 2t] 2w q2", 2, 3, 2, 4, 1, 2 },
    { "full queue [0o 1o 2O | 0t 0b | 1t 1e | 2t 2x] 2w q2", 0, 1, 0, 1, 0, 0 },
    { "full queue [0O | 0t | 1O | 2O] 2w q2", 1, 2, 2, 3, 0, 1 },
    { "full queue [0O 1O 2P 3P | 0w 0t | 1t 2t | 3t 0u] 2w q2", 0, 1, 1, 1, 0, 0 },
    { "sent to while closing [0o 1o | 0t | 1c | ] 2w q64", 3, 4, 4, 5, 2, 3 },
    { "sent to while closing [0o 1o | 0t | 1e | ] 2w q64", 3, 4, 4, 5, 2, 3 },
    { "sent to while closing [0o 1o | 0t | 1r | ] 2w q64", 2, 3, 3, 5, 1, 2 },
    { "sent to while closing [0P 1P | 0t | 1x | ] 2w q64 app", 3, 4, 4, 5, 2, 3 },
    { "sent to while closing [0P 1P 2P | 0t | 1c | 2t] 2w q64 app", 2, 3, 2, 3, 1, 2 },
    { "closing both [0P 1P | 0t 0c | 1t 1x | ] 2w q64 app", 1, 2, 2, 3, 1, 1 },
    { "closing both [0P 1P | 0c | 1c | ] 2w q64 app", 3, 4, 3, 5, 2, 3 },
    { "closing both [0P 1P | 0r | 1e | ] 2w q64 app", 2, 3, 3, 5, 1, 2 },
    { "violation while sent to [0o 1o | 0t | 1v | ] 2w q64", 3, 4, 4, 4, 2, 3 },
    { "close and reset [0P 1o | 0c 0r |  | ] 2w q64", 7, 7, 7, 7, 7, 7 },
    { "close and end [0P | 0c 0e |  | ] 2w q64", 7, 7, 7, 7, 7, 7 },
    { "data and reset [0P | 0t 0l 0r |  | ] 2w q64", 4, 6, 6, 7, 3, 4 },
    { "blocked and reset [0o 1o | 1z 0t 0t 1r |  | ] 2w q64", 2, 3, 3, 4, 1, 2 },
    { "blocked and closed [0o 1o | 1w 0t 1c 1u |  | ] 2w q64", 2, 4, 3, 5, 1, 2 },
    { "descriptor reused [0o 1o | 0t | 1r 2O | ] 2w q64", 2, 2, 2, 3, 1, 1 },
    { "descriptor reused [0o 1o | 0t 0t | 1x 2O 2y 2t | ] 2w q64", 0, 0, 1, 1, 0, 0 },
    { "descriptor reused [0P 1P | 0t | 1r 2O | ] 2w q64 app", 1, 2, 2, 3, 1, 1 },
    { "descriptor reused [0o 1o | 0t | 1e 2P | 3O] 2w q64", 1, 1, 1, 2, 0, 0 },
    { "descriptor reused [0o | 1kO 1x 2O 2y 2t | 0t | ] 2w q64", 1, 1, 1, 2, 0, 0 },
    { "never upgraded [ | 0kO 0r | 1kO 1e | ] 2w q64", 2, 2, 2, 3, 1, 2 },
    { "never upgraded [0o | 1hO 1x | 2O | ] 2w q64", 2, 2, 3, 4, 1, 2 },
    { "failing writes [0o 1o 2o | 0t | 1t | ] 2w q64 faults", 2, 2, 3, 3, 1, 2 },
    { "failing allocations [0o 1o 2o | 0t | 1c | ] 2w q64 faults", 2, 2, 2, 3, 1, 1 },
    { "three workers [0o 1o | 0t | 1t 1c | 2O] 3w q64", 0, 1, 1, 2, 0, 0 },
    { "time-out while sent to [0o 1o | 0t 0t |  | ] 2w q64", 3, 3, 4, 4, 2, 3 },
    { "time-out while closing [0P 1o | 0c | 1e | ] 2w q64", 3, 4, 4, 6, 2, 3 },
    { "time-out while sent to [0P 1P | 0t | 1t | ] 2w q64 app", 2, 2, 3, 3, 1, 2 },
    { "to each other [0P 1P | 0t | 1t | ] 2w q64 app", 3, 3, 4, 5, 2, 3 },
    { "to each other [0P 1P 2P | 0t | 1t | 2t] 2w q64 app", 2, 2, 2, 2, 1, 1 },
    { "to each other [0P 1P 2P | 0t | 1t | 2t] 3w q64 app", 1, 1, 2, 2, 0, 1 },
    { "broadcasts [0o 1o | 0t | 1t | ] 2w q64", 3, 3, 4, 4, 2, 3 },
    { "broadcasts [0o 1o 2o | 0t | 1t | 2t] 3w q64", 1, 1, 2, 2, 0, 1 },
    { "broadcasts [0o 1o | 0t 0t | 1t 1t | ] 2w q64", 1, 2, 2, 2, 1, 1 },
    { "to oneself [0O 1P | 0t 0t | 1t 1p | ] 2w q64", 2, 2, 2, 3, 1, 1 },
    { "connecting [0P | 0t | 1P | ] 2w q64 app", 2, 3, 3, 4, 1, 2 },
    { "connecting [0P | 1P | 2P | ] 2w q64 app", 2, 2, 3, 3, 1, 2 },
    { "connecting [0o | 0t | 1o | 2o] 3w q64", 1, 1, 2, 2, 0, 1 },
    { "closing [0P 1P | 0t | 1c | ] 2w q64 app", 3, 3, 4, 4, 2, 3 },
    { "closing [0P 1P 2P | 0c | 1e | ] 2w q64 app", 3, 3, 3, 5, 2, 3 },
    { "closing [0P 1P 2P | 0c | 1e | 2t] 2w q64 app", 2, 2, 2, 2, 1, 1 },
    { "closing [0o 1o 2o | 0c | 1e | 2t] 3w q64", 1, 2, 2, 3, 0, 1 },
    { "connecting and closing [0P 1P | 0x | 1t | 2P] 2w q64 app", 1, 2, 2, 3, 0, 1 },
    { "connecting and closing [0o 1o | 0x | 1t | 2o] 2w q64", 1, 2, 2, 3, 0, 1 },
    { "one does not read [0P 1P 2P | 0z 1t | 2t 0u | ] 2w q64 app", 2, 3, 2, 3, 1, 1 },
    { "all do not read [0o 1o | 0z 1z 0t 1t | 0t 1t 0u 1u | ] 2w q64", 0, 1, 0, 1, 0, 0 },
    { "pings while sending [0o 1o | 0t | 1t | ] 2w q64", 2, 3, 3, 4, 1, 2 },
    { "full queue [0P 1P 2P | 0t | 1t | 2t] 2w q1 app", 2, 3, 3, 4, 1, 2 },
    { "failing writes [0P 1P | 0t | 1t | ] 2w q64 faults app", 2, 3, 3, 4, 1, 2 },
    { "idle [ | S |  | ] 2w q64", 6, 7, 7, 7, 7, 7 },
    { "idle [0o 1P 2O | S |  | ] 2w q64", 6, 7, 7, 7, 7, 7 },
    { "stopped twice [0o 1P | S S |  | ] 2w q64", 7, 7, 7, 7, 3, 5 },
    { "connecting [0P | S | 1P | ] 2w q64", 3, 4, 6, 7, 1, 2 },
    { "connecting [0P | S | 1P | 2O] 2w q64", 2, 3, 3, 4, 0, 1 },
    { "connecting in parts [ | S | 0kP 1hP 1H | ] 2w q64", 1, 2, 3, 5, 0, 1 },
    { "serving [0o 1o 2P | S | 0t 1t 2t | ] 2w q64", 1, 2, 3, 4, 0, 1 },
    { "serving [0o 1o | S | 0t | 1t] 2w q64", 1, 2, 3, 5, 0, 1 },
    { "talking [0P 1P | S | 0t | 1t] 2w q64 app", 1, 2, 3, 5, 0, 1 },
    { "talking [0P 1P 2P | S | 0t | 1c] 3w q64 app", 1, 2, 3, 4, 0, 1 },
    { "closing [0P 1P | S | 0c | 1e] 2w q64 app", 1, 2, 3, 5, 0, 1 },
    { "closing [0P 1o | S | 0t 0x | 1r] 2w q64", 1, 2, 2, 4, 0, 1 },
    { "closing [0P 1o | 0x S | 1r | ] 2w q64", 2, 3, 4, 6, 1, 2 },
    { "blocked output [0o 1o | 1z 0t 0t S | 1u | ] 2w q64", 1, 2, 3, 4, 0, 1 },
    { "blocked output [0P | 0w 0t 0c S |  | ] 2w q64", 2, 3, 5, 7, 1, 2 },
    { "time-outs [0P 1o | T S | 0t | ] 2w q64", 2, 3, 4, 6, 1, 2 },
    { "time-outs [0P 1o | T T S | 1p | ] 2w q64", 1, 2, 3, 4, 0, 1 },
    { "full queue [0P 1O 2O | 0t 1t 2t S |  | ] 2w q1", 2, 3, 4, 5, 1, 2 },
    { "full queue [0P 1O 2O | S | 0t 1t | 2t] 1w q1", 2, 3, 3, 5, 0, 1 },
    { "failing calls [0P 1o | S | 0t | 1t] 2w q64 faults", 1, 2, 3, 4, 0, 1 },
    { "spurious wake-ups [0P 1o | S | 0t | ] 2w q64 faults", 3, 4, 7, 7, 1, 2 },
    { "failing accept [0P | 1O S | 2O | ] 2w q64 faults", 1, 2, 2, 4, 0, 1 },
    { "spurious wake-ups [0o 1o | 0t | 1c | ] 2w q64 faults", 2, 3, 3, 4, 1, 2 },
    { "spurious wake-ups [0P 1P | 0t 0x | 1t 1x | ] 2w q64 faults app", 1, 2, 1, 2, 0, 1 },
    { "connecting [ | 0P | 1O | ] 2w q64 TLS", 2, 3, 3, 4, 1, 2 },
    { "connecting, then data [ | 0kO 0R 0y 0t 0e |  | ] 2w q64 TLS", 2, 3, 3, 5, 1, 2 },
    { "data during service [0O | 0t 0t 0b |  | ] 2w q64 TLS", 4, 5, 5, 7, 2, 4 },
    { "data during service [0P | 0m 0f |  | ] 2w q64 TLS", 4, 5, 5, 7, 3, 4 },
    { "end during service [0O 1P | 0t 0x | 1t 1e | ] 2w q64 TLS", 1, 2, 2, 3, 1, 1 },
    { "becoming writable [0o 1o | 0w 1l 0W 0u 1t 0t |  | ] 2w q64 TLS", 2, 3, 2, 3, 1, 2 },
    { "becoming writable [0P | 0w 0t 0l 0W 0u |  | ] 2w q64 TLS", 3, 5, 4, 6, 2, 3 },
    { "TLS layer waits [0O | 0t 0t |  | ] 2w q64 TLS faults", 3, 5, 4, 6, 2, 3 },
    { "TLS layer waits [ | 0P | 1O | ] 2w q64 TLS faults", 1, 2, 2, 3, 0, 1 },
    { "TLS layer waits [0o 1o | 0t | 1t | ] 2w q64 TLS faults", 2, 3, 2, 3, 1, 2 },
    { "sent to while closing [0o 1o | 0t | 1c | ] 2w q64 TLS", 3, 4, 3, 5, 2, 3 },
    { "sent to while closing [0P 1P | 0t | 1x | ] 2w q64 TLS app", 3, 4, 3, 5, 2, 3 },
    { "closing both [0P 1P | 0r | 1e | ] 2w q64 TLS app", 2, 3, 3, 5, 1, 2 },
    { "TLS layer waits [0o 1o | 0t | 1c | ] 2w q64 TLS faults", 2, 3, 2, 3, 1, 2 },
    { "TLS layer waits [0P 1P | 0t 0e | 1x | ] 2w q64 TLS faults app", 1, 2, 2, 3, 0, 1 },
    { "descriptor reused [0o 1o | 0t | 1r 2O | ] 2w q64 TLS", 1, 1, 2, 3, 0, 1 },
    { "no lock in the application [0P 1P | 0t | 1t 1c | ] 2w q64 app", 2, 3, 3, 4, 1, 2 },
    { "no lock in the application [0P 1P | 0t 0x | 1t 1x | ] 2w q64 app", 1, 2, 2, 3, 0, 1 },
    { "to all and oneself [0P 1P | 0t | 1t | ] 2w q64 app", 3, 4, 3, 5, 2, 3 },
    { "to all and oneself [0P 1P | 0t 0c | 1t 1e | ] 2w q64 app", 1, 2, 2, 3, 1, 1 },
    { "to all and oneself [0P 1P 2P | 0t | 1t | 2c] 3w q64 app", 1, 2, 2, 3, 0, 1 },
    { "to each other [0P 1P | 0t | 1t | ] 2w q64 TLS app", 3, 4, 3, 5, 2, 3 },
    { "TLS layer waits [0P 1P | 0t | 1t | ] 2w q64 TLS faults app", 2, 3, 2, 3, 1, 2 },
    { "closing [0o 1o 2o | 0c | 1e | 2t] 3w q64 TLS", 1, 2, 2, 3, 0, 1 },
    { "at once [0o 1o 2o | 0t | 1t | 2t] 2w q64 TLS", 1, 2, 2, 3, 0, 1 },
    { "leaving [0o 1o 2o | 0t 2t | 1x | ] 2w q64 TLS", 1, 2, 2, 3, 0, 1 },
    { "serving [0o 1o 2P | S | 0t 1t 2t | ] 2w q64 TLS", 0, 1, 2, 3, 0, 0 },
    { "connecting [0P | S | 1P | 2O] 2w q64 TLS", 0, 1, 3, 4, 0, 0 },
    { "TLS layer waits [0P 1o | 0t S | 1t | ] 2w q64 TLS faults", 0, 1, 2, 3, 0, 0 },
    { "interrupted calls [0O | 0t 0e |  | ] 2w q64 faults", 4, 6, 7, 7, 3, 4 },
    { "interrupted calls [0O 1P | 0t 0x | 1t 1e | ] 2w q64 faults", 1, 2, 1, 3, 0, 1 },
    { "interrupted calls [0P | 0w 0t 0l 0W 0u |  | ] 2w q64 faults", 3, 4, 3, 5, 1, 2 },
    { "interrupted calls [ | 0hP 0H 0t 0e |  | ] 2w q64 faults", 2, 3, 3, 4, 1, 2 },
    { "interrupted calls [0O | 0t | 1kO 1e | ] 2w q64 faults", 1, 2, 2, 3, 0, 1 },
    { "interrupted calls [0o 1o | 0t 0e | 1t 1e | ] 2w q64 TLS faults", 1, 2, 1, 2, 0, 1 },
    { "interrupted calls [0o 1o | 0t 0e | 1t 1c | ] 2w q64 faults", 1, 2, 1, 2, 0, 1 },
    { "interrupted calls [0P 1P | 0t 0e | 1t 1x | ] 2w q64 faults app", 1, 2, 1, 2, 0, 1 },
    { "joining at once [0o | 1o 2o 0q 0t |  | ] 2w q64", 2, 3, 3, 4, 1, 2 },
    { "leaving at once [0o 1o 2o 3o | 1e 2e 0q 0t |  | ] 2w q64", 3, 4, 4, 6, 2, 3 },
    { "joining and leaving at once [0o 1o | 2o 1e 0q 0t |  | ] 2w q64", 2, 3, 3, 5, 1, 2 },
