SPECIFICATION Spec
CONSTANTS N = 2 ROUNDS = 2 NODES = 2 LEAK = "norandom"
INVARIANTS HostsBlind GuestBlind
