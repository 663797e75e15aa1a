SPECIFICATION MCSpec
CONSTANTS Handles = {0, 1}
          Files = {0}
VIEW Heap
INVARIANTS TypeOK Capacity Laws
PROPERTIES Frame Typed
CHECK_DEADLOCK FALSE
