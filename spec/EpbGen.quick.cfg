CONSTANTS Alphabet = {0, 1, 2, 3, 4}
 MaxLen = 6
SPECIFICATION Spec
INVARIANTS EscapeOK FastOK IdentityOnPlain Shrinks Emit
