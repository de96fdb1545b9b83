// a module whose debug information gets damaged
int corrupt_two(int x) { return x * 3; }
int corrupt_one(int x) { return corrupt_two(x) + 1; }
