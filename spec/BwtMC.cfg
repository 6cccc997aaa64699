SPECIFICATION Spec
CONSTANTS Alphabet = {0, 1, 2}
 MaxLen = 6
INVARIANTS Inverts CertificateComplete StartsOK LFDefined
