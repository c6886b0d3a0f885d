CONSTANTS Alphabet = {0, 1, 2, 3, 4}
 MaxLen = 7
SPECIFICATION Spec
INVARIANTS EscapeOK FastOK IdentityOnPlain Shrinks Emit
