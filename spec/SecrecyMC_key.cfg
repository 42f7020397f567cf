SPECIFICATION Spec
CONSTANTS N = 2 ROUNDS = 2 NODES = 2 LEAK = "key"
INVARIANTS HostsBlind GuestBlind
