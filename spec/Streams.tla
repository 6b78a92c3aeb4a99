------------------------------- MODULE Streams -------------------------------
(* Text streams.  A reader holds what is still to be read, as a sequence of   *)
(* character codes; whether a string or a file lies behind it is invisible.   *)
(* A writer holds the text written so far.  A string buffer holds its text    *)
(* and a reading position.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES rest,    \* reader -> remaining characters
          can,     \* reader -> a character may be put back (one was just read)
          text,    \* writer -> text
          buf, rp  \* string buffer -> text, reading position
svars == <<rest, can, text, buf, rp>>
EOFC == -1
NL == 10
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Take(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
\* length of the first line of s, its newline included
LineLen(s) == IF \E i \in 1..Len(s) : s[i] = NL THEN CHOOSE i \in 1..Len(s) : s[i] = NL /\ \A j \in 1..i - 1 : s[j] # NL ELSE Len(s)
Least(a, b) == IF a < b THEN a ELSE b
LineOf(s, cnt) == Take(s, Least(LineLen(s), cnt - 1))

Signed(ch) == IF ch > 127 THEN ch - 256 ELSE ch
Getc(r, out) == IF rest[r] = <<>> THEN out = EOFC /\ can' = [can EXCEPT ![r] = FALSE] /\ UNCHANGED <<rest, text, buf, rp>>
                ELSE out = Signed(rest[r][1]) /\ rest' = [rest EXCEPT ![r] = Drop(@, 1)] /\ can' = [can EXCEPT ![r] = TRUE] /\ UNCHANGED <<text, buf, rp>>
Ungetc(r, ch, out) == can[r] /\ out = Signed(ch) /\ rest' = [rest EXCEPT ![r] = <<ch>> \o @] /\ can' = [can EXCEPT ![r] = FALSE] /\ UNCHANGED <<text, buf, rp>>
\* got: <<>> when nothing could be read
Fgets(r, cnt, ok, got) ==
    /\ IF cnt <= 0 \/ (rest[r] = <<>> /\ cnt # 1) THEN ~ok /\ UNCHANGED rest
       ELSE IF cnt = 1 /\ rest[r] = <<>> THEN UNCHANGED rest   \* no room: success or failure, nothing read
       ELSE ok /\ got = LineOf(rest[r], cnt) /\ rest' = [rest EXCEPT ![r] = Drop(@, Len(got))]
    /\ can' = [can EXCEPT ![r] = FALSE] /\ UNCHANGED <<text, buf, rp>>
Fputs(w, s, ret) == ret = Len(s) /\ text' = [text EXCEPT ![w] = @ \o s] /\ UNCHANGED <<rest, can, buf, rp>>
Final(w, s) == s = text[w] /\ UNCHANGED svars

BConcat(b, s) == buf' = [buf EXCEPT ![b] = @ \o s] /\ UNCHANGED <<rest, can, text, rp>>
BClear(b) == buf' = [buf EXCEPT ![b] = <<>>] /\ rp' = [rp EXCEPT ![b] = 0] /\ UNCHANGED <<rest, can, text>>
BTake(b, s) == s = buf[b] /\ BClear(b)
BCopy(d, s) == buf' = [buf EXCEPT ![d] = buf[s]] /\ rp' = [rp EXCEPT ![d] = 0] /\ UNCHANGED <<rest, can, text>>
Space == {32} \cup 9..13
Digit == 48..57
\* skip characters of the set T from position p
SkipWhile(s, p, T) == LET RECURSIVE go(_)
                          go(q) == IF q < Len(s) /\ s[q + 1] \in T THEN go(q + 1) ELSE q
                      IN go(p)
BSkipWs(b) == rp' = [rp EXCEPT ![b] = SkipWhile(buf[b], @, Space)] /\ UNCHANGED <<rest, can, text, buf>>
BSkipInt(b) == LET p == rp[b] q == IF p < Len(buf[b]) /\ buf[b][p + 1] = 45 THEN p + 1 ELSE p
               IN rp' = [rp EXCEPT ![b] = SkipWhile(buf[b], q, Digit)] /\ UNCHANGED <<rest, can, text, buf>>
BSkipChar(b) == rp' = [rp EXCEPT ![b] = IF @ < Len(buf[b]) THEN @ + 1 ELSE @] /\ UNCHANGED <<rest, can, text, buf>>
BSetPos(b, p) == p \in 0..Len(buf[b]) /\ rp' = [rp EXCEPT ![b] = p] /\ UNCHANGED <<rest, can, text, buf>>
=============================================================================
