namespace sim { bool Instrumented() { return false; } }
