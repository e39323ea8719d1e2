SPECIFICATION TSpec
VIEW View
CONSTANT P <- PFromEnv
INVARIANT Done
CHECK_DEADLOCK FALSE
