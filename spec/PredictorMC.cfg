SPECIFICATION Spec
INVARIANTS Inside Never0
