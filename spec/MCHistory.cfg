SPECIFICATION Spec
CONSTANTS Features = 3
          Threads = 2
INVARIANT Told
CHECK_DEADLOCK FALSE
