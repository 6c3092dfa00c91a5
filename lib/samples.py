"""Small programs which together use every construct of the language; some end with an error."""

SAMPLES = {
"types": """TYPE Col = (red, green, blue)
TYPE PInt = ^INTEGER
TYPE Rec
    DECLARE n, m: INTEGER
    DECLARE a: ARRAY[1:2, 0:1] OF STRING
ENDTYPE
DECLARE c: Col
DECLARE p: PInt
DECLARE r, s: Rec
DECLARE arr: ARRAY[-1:1] OF Rec
c <- green
OUTPUT c, " ", c + 1, " ", blue - 1
r.n <- 5
p <- ^r.n
p^ <- p^ + 1
r.a[2, 1] <- "x"
s <- r
s.n <- 9
arr[0] <- s
OUTPUT r.n, s.n, arr[0].n, arr[0].a[2, 1], p^
OUTPUT c = green AND c <> red
""",
"constants": """CONSTANT k = 5
CONSTANT neg = -2
CONSTANT pi = 3.25
CONSTANT nope = -1.5
CONSTANT yes = TRUE
CONSTANT ch = 'c'
CONSTANT st = "text"
OUTPUT k, neg, pi, nope, yes, ch, st
OUTPUT k * neg - pi / 2
k <- 6
OUTPUT "not reached"
""",
"ifs": """FOR i <- 1 TO 4
    IF i = 1 THEN
        OUTPUT "one"
    ELSE IF i = 2
    THEN
        OUTPUT "two"
    ELSE IF NOT (i = 4) AND TRUE THEN
        OUTPUT "three"
    ELSE
        OUTPUT "other"
    ENDIF
NEXT i
IF FALSE THEN
ENDIF
""",
"cases": """DECLARE x: INTEGER
q <- "q"
FOR x <- -1 TO 7
    CASE OF x
        1: OUTPUT "one"
        2 TO 4: OUTPUT "some"
            OUTPUT "more"
        -1: OUTPUT "neg"
        5: CASE OF q
                "p": OUTPUT "p"
                "q": OUTPUT "q"
           ENDCASE
        OTHERWISE: OUTPUT "else"
    ENDCASE
NEXT x
CASE OF q
    "q": OUTPUT 's'
ENDCASE
""",
"loops": """i <- 0
WHILE i < 5 DO
    i <- i + 1
    IF i = 2 THEN
        CONTINUE
    ENDIF
    IF i = 4 THEN
        BREAK
    ENDIF
    OUTPUT "w", i
ENDWHILE
WHILE i > 2
DO
    i <- i - 1
ENDWHILE
REPEAT
    i <- i + 1
    OUTPUT "r", i
UNTIL i >= 4
FOR j <- 3 TO -3 STEP -2
    FOR k <- 1 TO 2
        OUTPUT j, ",", k
    NEXT
NEXT j
FOR r <- 1 TO 0
    OUTPUT "never"
NEXT r
""",
"routines": """PROCEDURE p(BYREF a, b: INTEGER, BYVAL c: STRING, d: ARRAY)
    a <- a + b
ENDPROCEDURE
""",
"procedures": """PROCEDURE swap(BYREF a: INTEGER, b: INTEGER)
    DECLARE t: INTEGER
    t <- a
    a <- b
    b <- t
ENDPROCEDURE
PROCEDURE show(BYVAL s: STRING, n: INTEGER)
    OUTPUT s, n
    s <- "changed"
ENDPROCEDURE
PROCEDURE nothing
    OUTPUT "nothing"
ENDPROCEDURE
FUNCTION fact(n: INTEGER) RETURNS INTEGER
    IF n <= 1 THEN
        RETURN 1
    ENDIF
    RETURN n * fact(n - 1)
ENDFUNCTION
FUNCTION name() RETURNS STRING
    RETURN "name"
ENDFUNCTION
DECLARE x, y: INTEGER
x <- 3
y <- 4
CALL swap(x, y)
CALL show("x=", x)
CALL show(name(), y)
CALL nothing
OUTPUT fact(5), name() & "!"
""",
"files": """OPENFILE "t.txt" FOR WRITE
WRITEFILE "t.txt", "line " & 1
WRITEFILE "t.txt", 2.5
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR APPEND
WRITEFILE "t.txt", TRUE
CLOSEFILE "t.txt"
OPENFILE "t.txt" FOR READ
DECLARE l: STRING
WHILE NOT EOF("t.txt") DO
    READFILE "t.txt", l
    OUTPUT "[", l, "]"
ENDWHILE
CLOSEFILE "t.txt"
""",
"random": """DECLARE v: INTEGER
OPENFILE "r.dat" FOR RANDOM
FOR v <- 1 TO 3
    SEEK "r.dat", v
    PUTRECORD "r.dat", v
NEXT v
SEEK "r.dat", 2
GETRECORD "r.dat", v
OUTPUT v
CLOSEFILE "r.dat"
SEEK "r.dat", 1
OUTPUT "not reached"
""",
"input": """DECLARE n: INTEGER
DECLARE r: REAL
DECLARE b: BOOLEAN
DECLARE c: CHAR
DECLARE s: STRING
INPUT n
INPUT r
INPUT b
INPUT c
INPUT s
READ t
OUTPUT n, " ", r, " ", b, " ", c, " ", s, " ", t
""",
"builtins": """s <- "Hello, World"
OUTPUT LENGTH(s), LEFT(s, 3), RIGHT(s, 3), MID(s, 2, 4), TO_UPPER(s), TO_LOWER(s)
OUTPUT UCASE('a'), LCASE('B'), ASC('c'), CHR(100)
OUTPUT NUM_TO_STR(5), STR_TO_NUM("2.5"), IS_NUM("12x"), INT(3.75)
OUTPUT DAY(SETDATE(3, 4, 2021)), MONTH(3/4/2021), YEAR(3/4/2021), DAYINDEX(3/4/2021)
OUTPUT SQRT(16), POW(2, 3), 7 DIV 2, 7 MOD 2, 7 / 2, -7 + 1
""",
"casts": """OUTPUT INTEGER("12") + 1, REAL(3) / 2, STRING(4 * 5) & "!", BOOLEAN(1), CHAR(65)
OUTPUT INTEGER(3.7), REAL("2.5"), INTEGER(TRUE), BOOLEAN("TRUE"), DATE("1/2/2003")
""",
"dates": """d <- 5/3/2020
OUTPUT d
OUTPUT 5 / 3
e <- 6/3/2020
OUTPUT d < e, " ", d = 5/3/2020, " ", 12 / 4 / 3
""",
"strings": """OUTPUT "a // not a comment", '/', "\\"quoted\\"", '\\'', "tab\\tnew\\nline", '\\\\', "\\\\"
OUTPUT "two
lines"
OUTPUT "", 'x' & 'y', "// ", '"', "'"
""",
"undefined": """OUTPUT "before"
OUTPUT 1 + unknown
OUTPUT "after"
""",
"deep": """PROCEDURE a(n: INTEGER)
    IF n = 0 THEN
        OUTPUT "deep"
        OUTPUT 1 DIV n
    ENDIF
    CALL a(n - 1)
ENDPROCEDURE

OUTPUT "start"
CALL a(3)
OUTPUT "not reached"
""",
"badindex": """DECLARE a: ARRAY[1:3] OF INTEGER
FOR i <- 1 TO 4
    a[i] <- i
    OUTPUT a[i]
NEXT i
""",
"missing_endif": """OUTPUT "x"
IF TRUE THEN
    OUTPUT "y"

OUTPUT "z"
""",
"missing_quote": """OUTPUT "x"
OUTPUT "y
OUTPUT 5
""",
"twoequals": """OUTPUT 1
IF 1 == 2 THEN
    OUTPUT 2
ENDIF
""",
"badtoken": """OUTPUT 1
OUTPUT 2 ! 3
""",
"extra": """OUTPUT 1
OUTPUT 2 3
""",
"paren": """OUTPUT "before"
OUTPUT("x")
""",
"stray": """OUTPUT 1
ENDWHILE
OUTPUT 2
""",
"noexpr": """OUTPUT 1,
OUTPUT 2
""",
"implicit": """x <- 1
y <- x + 1.5
z <- "s" & y
OUTPUT x, y, z
5 + 3
x
-x
(x + 1) * 2
""",
"empty": "\n\n",
"return": """FUNCTION f(x: REAL) RETURNS REAL
    DECLARE a: ARRAY[1:2] OF REAL
    a[1] <- x
    a[2] <- a[1] * 2
    RETURN a[2]
ENDFUNCTION
OUTPUT f(f(1.5)), f(2)
RETURN 5
""",
}
del SAMPLES["routines"]
STDIN = "12\n2.5\nTRUE\nq\nsome text\nlast\n"
