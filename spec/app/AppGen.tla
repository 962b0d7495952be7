-------------------------------- MODULE AppGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, right
gvars == <<hist, right>>
R(S) == RandomElement(S)
W(s) == s[RandomElement(1..Len(s))]
E1(o) == hist' = Append(hist, o) /\ UNCHANGED right
Cooks(x) == W(<<"none", "right", "right", "right", "right", "right", "right", "among", "empty", "emptyquoted", "noval", "blank", "random", "cut", "cut", "ext",
  "case", "flip", "name", "query", "query", "query", "quoted", "wrongright", "rightwrong", "emptyright", "twolines">>)
Methods(x) == W(<<"GET", "GET", "GET", "GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "FOO">>)
Paths(x) == W(<<"/", "/", "/data.txt", "/data.txt", "/data.txt", "/sub/", "/sub/inner.txt", "/sub/deep/", "/login/x/inner.txt", "/data.txt?a=b", "/none",
  "/index.html", "/sub", "/login/x", "/login/", "/Login", "/login", "/login?a=b", "//data.txt", "/./data.txt", "/../outside.txt", "/%2e%2e/outside.txt",
  "/..%2foutside.txt", "/sub/..%5c..%5coutside.txt", "/login/../data.txt", "/sub/../../outside.txt", "/../home/msgs.db", "/%2e%2e/home/msgs.db",
  "http://localhost/data.txt", "/login%2f..%2fdata.txt", "*">>)
Extras(x) == W(<<"", "", "", "", "Range: bytes=0-100\r\n", "If-Modified-Since: Thu, 19 Nov 2099 01:29:10 GMT\r\n", "X-Forwarded-For: 127.0.0.1\r\n">>)
(* a right passphrase is not rare *)
Ps(x) == IF R(1..5) < 3 THEN right ELSE R(0..5)
Hows(x) == W(<<"post", "post", "post", "post", "post", "query", "get", "getbody", "put", "missing", "nobody", "text", "twice", "both", "case", "badform", "extra">>)
Get(x) == \E p \in {Paths(x)} : \E m \in {Methods(x)} : E1([op |-> "Get", method |-> m, path |-> p, ck |-> Cooks(x), c |-> W(<<0, 0, 0, 0, 1, 2, R(1..9)>>), v |-> R(0..999), extra |-> Extras(x)])
Log(x) == E1([op |-> "Login", how |-> Hows(x), p |-> Ps(x), p2 |-> Ps(x), ck |-> W(<<"none", "none", "empty", "right", "random">>), v |-> R(0..999)])
Conc(x) == \E n \in {R(2..6)} : E1([op |-> "Conc", ps |-> [i \in 1..n |-> Ps(i)]])
Sta(x) == E1([op |-> "Start"])
Rek(x) == \E p \in {R(1..5)} : hist' = Append(hist, [op |-> "Rekey", p |-> p]) /\ right' = p
Cfg(x) == E1([op |-> "Config", kind |-> W(<<"ok", "ok", "ok", "old", "oldprog">>)])
GInit == \E c \in {W(<<"ok", "ok", "ok", "ok", "ok", "ok", "none", "broken", "old", "oldprog">>)} : hist = <<[op |-> "Config", kind |-> c], [op |-> "Start"]>> /\ right = 1
GNext == Len(hist) < Depth /\ \E z \in {R(1..40)} :
  \/ z <= 24 /\ Get(z)
  \/ z \in 25..33 /\ Log(z)
  \/ z \in 34..35 /\ Conc(z)
  \/ z = 36 /\ Sta(z)
  \/ z = 37 /\ Rek(z)
  \/ z = 38 /\ Cfg(z)
  \/ z \in 39..40 /\ hist' = hist \o <<[op |-> "Config", kind |-> "ok"], [op |-> "Login", how |-> "post", p |-> right, p2 |-> 0, ck |-> "none", v |-> 0]>> /\ UNCHANGED right
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) >= Depth => PrintT(ToJson(hist))
=============================================================================
