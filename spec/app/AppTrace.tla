------------------------------- MODULE AppTrace -------------------------------
EXTENDS App, TraceLib
tvars == <<vars, l>>

(* does the request carry the cookie of the session?  Of two, or a quoted
   one, either may be meant *)
Carries(e) ==
  CASE e.ck \in {"right", "among"} -> {Shown(e.c)}
    [] e.ck \in {"quoted", "wrongright", "rightwrong", "emptyright", "twolines"} -> {Shown(e.c), FALSE}
    [] OTHER -> {FALSE}
(* what a page shows *)
Page == [p \in {"/", "/data.txt", "/sub/", "/sub/inner.txt", "/sub/deep/", "/login/x/inner.txt", "/data.txt?a=b"} |->
  CASE p = "/" -> "index" [] p \in {"/data.txt", "/data.txt?a=b"} -> "data" [] p = "/sub/" -> "listing" [] p = "/sub/deep/" -> "deep" [] OTHER -> "inner"]
Clean == DOMAIN Page \cup {"/none", "/index.html", "/sub", "/login/x", "/login/", "/Login"}
IsLogin(e) == e.path \in {"/login", "/login?a=b"}
TGet == At("Get") /\ \E e \in {E} :
  /\ e.res \in {"ok", "noanswer"}
  /\ e.kind \notin {"outside", "db"} /\ e.cookie = 0
  /\ IF IsLogin(e) THEN /\ e.kind \in {"login", "none"}
                        /\ e.method = "GET" => e.res = "ok" /\ e.kind = "login"
     ELSE \E a \in Carries(e) :
       IF a THEN (e.method = "GET" /\ e.path \in DOMAIN Page /\ e.extra = "") => e.res = "ok" /\ e.status = 200 /\ e.kind = Page[e.path]
       ELSE /\ e.kind \in {"none", "login"}
            /\ (e.res = "ok" /\ e.path # "*") => /\ e.status >= 300 /\ e.status \notin {304, 404}
                               /\ (e.path \in Clean \cap DOMAIN Page => e.status >= 400)
                               /\ (e.path \in Clean => e.status = 403 \/ e.status \notin 300..399)
  /\ UNCHANGED vars
(* nothing but a login brings a cookie; what is new is new *)
TLogin == At("Login") /\ \E e \in {E} :
  /\ e.res \in {"ok", "noanswer"} /\ e.kind \in {"none", "login"}
  /\ e.how = "post" => e.res = "ok" /\ ((e.cookie # 0) = Admits(e.p))
  /\ e.cookie = 0 => e.status # 303
  /\ IF e.cookie = 0 THEN UNCHANGED <<cur, issued>>
     ELSE /\ e.how \notin {"missing", "nobody", "badform"}
          /\ (Admits(e.p) \/ (e.how \in {"twice", "both"} /\ Admits(e.p2)))
          /\ e.cookie = issued + 1 /\ e.strong /\ NewSession(e.cookie)
  /\ UNCHANGED <<up, right, config>>
TConc == At("Conc") /\ \E e \in {E} :
  /\ e.res = "ok" /\ ~e.leak
  /\ \A i \in 1..Len(e.ps) : (e.ids[i] # 0) = Admits(e.ps[i])
  /\ LET new == {i \in 1..Len(e.ps) : e.ids[i] # 0} IN
     /\ {e.ids[i] : i \in new} = (issued + 1)..(issued + Cardinality(new))
     /\ IF new = {} THEN e.valid = (IF cur = 0 THEN <<>> ELSE <<cur>>) /\ UNCHANGED <<cur, issued>>
        ELSE /\ Len(e.valid) = 1 /\ e.valid[1] > issued
             /\ cur' = e.valid[1] /\ issued' = issued + Cardinality(new)
  /\ UNCHANGED <<up, right, config>>
TStart == At("Start") /\ E.res = "ok" /\ Start /\ UNCHANGED <<right, config, issued>>
TRekey == At("Rekey") /\ \E e \in {E} : right' = e.p /\ UNCHANGED <<up, config, cur, issued>>
TConfig == At("Config") /\ \E e \in {E} : (IF e.kind = "none" THEN UNCHANGED config ELSE config' = (e.kind = "ok")) /\ UNCHANGED <<up, right, cur, issued>>
TNop == At("Nop") /\ UNCHANGED vars
TReset == AtReset /\ up' = FALSE /\ right' = 1 /\ config' = FALSE /\ cur' = 0 /\ issued' = 0
TInit == Init /\ l = 1
TNext == TGet \/ TLogin \/ TConc \/ TStart \/ TRekey \/ TConfig \/ TNop \/ TReset
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
