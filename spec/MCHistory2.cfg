SPECIFICATION Spec
CONSTANTS Features = 3
          Threads = 3
INVARIANT Told
CHECK_DEADLOCK FALSE
