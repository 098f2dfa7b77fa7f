--------------------------------- MODULE Text ---------------------------------
(* Printed text as a reader sees it.  TLC replaces these by java/Text.java.    *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
Bare(text, on, off) == CHOOSE s : TRUE     \* the text without the sequences that switch the colour on and off
Marks(text, on, off) == CHOOSE s : TRUE    \* those sequences in order, as "on" and "off"
Lines(text) == CHOOSE s : TRUE    \* the non-blank lines
Fields(line) == CHOOSE s : TRUE   \* the maximal runs of non-blank characters of a line
Width(line) == CHOOSE n \in Nat : TRUE    \* characters in a line
Ended(text) == CHOOSE b \in BOOLEAN : TRUE  \* the text is empty or ends with a newline
Dec(field) == CHOOSE x : TRUE     \* the number a decimal numeral denotes (Num's "any" if the field is not a numeral)
IsNumeral(field) == CHOOSE b \in BOOLEAN : TRUE
===============================================================================
