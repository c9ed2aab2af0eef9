--------------------------------- MODULE Fs ---------------------------------
(* A file system with directories, files, open descriptors and streams, and  *)
(* tasks that ask for operations on it.  An operation takes effect once,     *)
(* between the request and the answer; the answer is what the effect gave:   *)
(* r (result), e (error number, 0 if r >= 0), d (bytes or attributes).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ino,   \* [k: "f"/"d", mode, data, ent]
          des,   \* open file descriptions: [i, off, r, w, app]
          fd,    \* descriptor number -> description
          pend   \* task -> request, and what it gave
fvars == <<ino, des, fd, pend>>
ENOENT == 2  EBADF == 9  EEXIST == 17  ENOTDIR == 20  EISDIR == 21  EINVAL == 22  ENOTEMPTY == 39
Dir(m) == [k |-> "d", mode |-> m, data |-> << >>, ent |-> << >>]
File(m) == [k |-> "f", mode |-> m, data |-> << >>, ent |-> << >>]
FInit == ino = (1 :> Dir(0)) /\ des = << >> /\ fd = << >> /\ pend = << >>
None == -1
RECURSIVE Walk(_, _)
Walk(i, p) == IF ino[i].k # "d" THEN [e |-> ENOTDIR, dir |-> None, n |-> "", i |-> None]
              ELSE IF Len(p) = 1 THEN [e |-> 0, dir |-> i, n |-> p[1], i |-> IF p[1] \in DOMAIN ino[i].ent THEN ino[i].ent[p[1]] ELSE None]
              ELSE IF p[1] \notin DOMAIN ino[i].ent THEN [e |-> ENOENT, dir |-> None, n |-> "", i |-> None]
              ELSE Walk(ino[i].ent[p[1]], Tail(p))
At(p) == Walk(1, p)
Min(a, b) == IF a < b THEN a ELSE b
\* nothing is ever removed from ino and des; numbers say whose file it is, so that the order of unrelated effects leaves no mark
NewId(f, t) == LET R == {k \in DOMAIN f : k % 8 = t} IN t + 8 * (1 + Cardinality(R))
Link(s, dir, n, i) == [s EXCEPT ![dir].ent = (n :> i) @@ @]
Unlink(s, dir, n) == [s EXCEPT ![dir].ent = [m \in DOMAIN @ \ {n} |-> @[m]]]
\* what a request gives: result and next state
Ans(r, e, d, s, t, u) == [r |-> r, e |-> e, d |-> d, ino |-> s, des |-> t, fd |-> u]
Err(e) == Ans(-1, e, << >>, ino, des, fd)
Ok(r) == Ans(r, 0, << >>, ino, des, fd)
NewFd == -9                                      \* a descriptor: which one is known when it is answered
Open(q) == LET w == At(q.p) n == NewId(ino, q.t) m == NewId(des, q.t)
               D(i) == (m :> [i |-> i, off |-> 0, r |-> q.rw # "w", w |-> q.rw # "r", app |-> q.app = 1]) IN
           IF w.e # 0 THEN Err(w.e)
           ELSE IF w.i = None THEN IF q.cr = 0 THEN Err(ENOENT) ELSE Ans(NewFd, 0, <<m>>, Link((n :> File(q.mode)) @@ ino, w.dir, w.n, n), D(n) @@ des, fd)
           ELSE IF q.cr = 1 /\ q.ex = 1 THEN Err(EEXIST)
           ELSE IF ino[w.i].k = "d" /\ (q.rw # "r" \/ q.cr = 1) THEN Err(EISDIR)
           ELSE Ans(NewFd, 0, <<m>>, IF q.tr = 1 THEN [ino EXCEPT ![w.i].data = << >>] ELSE ino, D(w.i) @@ des, fd)
Has(f) == f \in DOMAIN fd
D(f) == des[fd[f]]
I(f) == ino[D(f).i]
Rest(f) == LET n == Len(I(f).data) - D(f).off IN IF n > 0 THEN n ELSE 0
ReadN(f, n) == SubSeq(I(f).data, D(f).off + 1, D(f).off + Min(n, Rest(f)))
Read(q) == IF ~Has(q.f) THEN Err(EBADF) ELSE IF ~D(q.f).r THEN Err(EBADF) ELSE IF I(q.f).k = "d" THEN Err(EISDIR)
           ELSE LET b == ReadN(q.f, q.n) IN Ans(Len(b), 0, b, ino, [des EXCEPT ![fd[q.f]].off = @ + Len(b)], fd)
Put(old, off, b) == [k \in 1..(IF off + Len(b) > Len(old) THEN off + Len(b) ELSE Len(old)) |->
                       IF k > off /\ k <= off + Len(b) THEN b[k - off] ELSE IF k <= Len(old) THEN old[k] ELSE 0]
Off(f) == IF D(f).app THEN Len(I(f).data) ELSE D(f).off
WriteB(f, b, s, t) == Ans(Len(b), 0, << >>, IF b = << >> THEN s ELSE [s EXCEPT ![D(f).i].data = Put(@, Off(f), b)],
                          IF b = << >> THEN t ELSE [t EXCEPT ![fd[f]].off = Off(f) + Len(b)], fd)
Write(q) == IF ~Has(q.f) THEN Err(EBADF) ELSE IF ~D(q.f).w THEN Err(EBADF) ELSE WriteB(q.f, q.b, ino, des)
Close(q) == IF ~Has(q.f) THEN Err(EBADF) ELSE Ans(0, 0, << >>, ino, des, [g \in DOMAIN fd \ {q.f} |-> fd[g]])
Attr(i) == <<IF ino[i].k = "d" THEN 1 ELSE 0, IF ino[i].k = "d" THEN 0 ELSE Len(ino[i].data), ino[i].mode>>
Found(p) == LET w == At(p) IN IF w.e # 0 THEN w.e ELSE IF w.i = None THEN ENOENT ELSE 0
Stat(q) == IF Found(q.p) # 0 THEN Err(Found(q.p)) ELSE Ans(0, 0, Attr(At(q.p).i), ino, des, fd)
Fstat(q) == IF ~Has(q.f) THEN Err(EBADF) ELSE Ans(0, 0, Attr(D(q.f).i), ino, des, fd)
Access(q) == IF Found(q.p) # 0 THEN Err(Found(q.p)) ELSE Ok(0)
Exists(q) == Ok(IF Found(q.p) = 0 THEN 1 ELSE 0)
Size(q) == Ok(IF Found(q.p) = 0 THEN Len(ino[At(q.p).i].data) ELSE 0)
Rm(q) == IF Found(q.p) # 0 THEN Err(Found(q.p)) ELSE LET w == At(q.p) IN IF ino[w.i].k = "d" THEN Err(EISDIR) ELSE Ans(0, 0, << >>, Unlink(ino, w.dir, w.n), des, fd)
Rmdir(q) == IF Found(q.p) # 0 THEN Err(Found(q.p)) ELSE LET w == At(q.p) IN
            IF ino[w.i].k # "d" THEN Err(ENOTDIR) ELSE IF DOMAIN ino[w.i].ent # {} THEN Err(ENOTEMPTY) ELSE Ans(0, 0, << >>, Unlink(ino, w.dir, w.n), des, fd)
Mkdir(q) == LET w == At(q.p) n == NewId(ino, q.t) IN IF w.e # 0 THEN Err(w.e) ELSE IF w.i # None THEN Err(EEXIST)
            ELSE Ans(0, 0, << >>, Link((n :> Dir(q.mode)) @@ ino, w.dir, w.n, n), des, fd)
\* paths have at most two names: the only ancestors are the first name's directory and the root
Above(i, p) == Len(p) > 1 /\ p[1] \in DOMAIN ino[1].ent /\ ino[1].ent[p[1]] = i
Rename(q) == LET a == At(q.p) b == At(q.p2) IN
  IF a.e # 0 THEN Err(a.e) ELSE IF b.e # 0 THEN Err(b.e) ELSE IF a.i = None THEN Err(ENOENT)
  ELSE IF Above(a.i, q.p2) THEN Err(EINVAL)
  ELSE IF b.i # None /\ Above(b.i, q.p) THEN Err(ENOTEMPTY)
  ELSE IF a.i = b.i THEN Ok(0)
  ELSE IF b.i # None /\ ino[a.i].k = "d" /\ ino[b.i].k # "d" THEN Err(ENOTDIR)
  ELSE IF b.i # None /\ ino[a.i].k # "d" /\ ino[b.i].k = "d" THEN Err(EISDIR)
  ELSE IF b.i # None /\ ino[a.i].k = "d" /\ DOMAIN ino[b.i].ent # {} THEN Err(ENOTEMPTY)
  ELSE Ans(0, 0, << >>, Link(Unlink(ino, a.dir, a.n), b.dir, b.n, a.i), des, fd)
Chmod(q) == IF Found(q.p) # 0 THEN Err(Found(q.p)) ELSE Ans(0, 0, << >>, [ino EXCEPT ![At(q.p).i].mode = q.mode], des, fd)
\* of files that no other task uses; both exist as files or not at all
Make(t, s, p, mode, b) == LET w == At(p) n == NewId(s, t) IN IF w.i = None THEN Link((n :> [File(mode) EXCEPT !.data = b]) @@ s, w.dir, w.n, n) ELSE [s EXCEPT ![w.i].data = b]
Data(p) == ino[At(p).i].data
Copy(q) == IF Found(q.p) # 0 THEN Err(Found(q.p)) ELSE IF At(q.p2).e # 0 THEN Err(At(q.p2).e)
           ELSE Ans(0, 0, << >>, Make(q.t, ino, q.p2, 432, IF q.p = q.p2 THEN << >> ELSE Data(q.p)), des, fd)
Writefile(q) == IF At(q.p).e # 0 THEN Err(At(q.p).e) ELSE Ans(Len(q.b), 0, << >>, Make(q.t, ino, q.p, 384, Put(IF Found(q.p) = 0 THEN Data(q.p) ELSE << >>, 0, q.b)), des, fd)
Touch(q) == IF At(q.p).e # 0 THEN Ok(0) ELSE Ans(1, 0, << >>, Make(q.t, ino, q.p, 384, IF Found(q.p) = 0 THEN Data(q.p) ELSE << >>), des, fd)
Readfile(q) == IF Found(q.p) # 0 THEN Ok(0) ELSE IF Data(q.p) = << >> THEN Ok(0) ELSE Ans(1, 0, Data(q.p), ino, des, fd)
\* r bytes from one to the other (at its offset o, or at that given)
Sends(q) == IF ~Has(q.f) \/ ~Has(q.g) THEN {Err(EBADF)} ELSE IF ~D(q.f).w \/ ~D(q.g).r THEN {Err(EBADF)}
            ELSE LET from == IF q.o < 0 THEN D(q.g).off ELSE q.o
                     n == Min(q.n, IF Len(I(q.g).data) > from THEN Len(I(q.g).data) - from ELSE 0) IN
                 {LET w == WriteB(q.f, SubSeq(I(q.g).data, from + 1, from + m), ino, des) IN
                  [w EXCEPT !.d = IF q.o < 0 THEN << >> ELSE <<from + m>>, !.des = IF q.o < 0 THEN [@ EXCEPT ![fd[q.g]].off = @ + m] ELSE @] : m \in (IF n = 0 THEN {0} ELSE 1..n)}
\* appends to or replaces a file at once: gives the number of items
Fput(q) == IF At(q.p).e # 0 THEN Ok(0) ELSE Ans(Len(q.b) \div q.sz, 0, << >>, Make(q.t, ino, q.p, 438, IF q.m = "a" /\ Found(q.p) = 0 THEN Data(q.p) \o q.b ELSE q.b), des, fd)
\* streams, named by their number (negative, so that they are no descriptor)
Fopen(q) == LET m == NewId(des, q.t) w == At(q.p) IN
            IF w.e # 0 \/ (w.i = None /\ q.m = "r") THEN Err(0)
            ELSE LET s == IF q.m = "r" THEN ino ELSE Make(q.t, ino, q.p, 438, IF q.m = "w" \/ w.i = None THEN << >> ELSE Data(q.p))
                     i == IF w.i = None THEN NewId(ino, q.t) ELSE w.i IN
                 Ans(0, 0, << >>, s, (m :> [i |-> i, off |-> 0, r |-> q.m = "r", w |-> q.m # "r", app |-> q.m = "a"]) @@ des, (q.f :> m) @@ fd)
Fread(q) == LET b == ReadN(q.f, q.n * q.sz) k == Len(b) \div q.sz IN Ans(k, 0, SubSeq(b, 1, k * q.sz), ino, [des EXCEPT ![fd[q.f]].off = @ + Len(b)], fd)
Fgetc(q) == IF Rest(q.f) = 0 THEN Err(0) ELSE Ans(I(q.f).data[D(q.f).off + 1], 0, << >>, ino, [des EXCEPT ![fd[q.f]].off = @ + 1], fd)
LineEnd(s) == LET N == {k \in 1..Len(s) : s[k] = 10} IN IF N = {} THEN Len(s) ELSE CHOOSE k \in N : \A j \in N : k <= j
Fgets(q) == IF Rest(q.f) = 0 THEN Err(0) ELSE LET a == ReadN(q.f, q.n - 1) b == SubSeq(a, 1, LineEnd(a)) IN Ans(0, 0, b, ino, [des EXCEPT ![fd[q.f]].off = @ + Len(b)], fd)
Fwrite(q) == LET w == WriteB(q.f, q.b, ino, des) IN [w EXCEPT !.r = Len(q.b) \div q.sz]
Do(q) == CASE q.op = "open" -> {Open(q)} [] q.op = "read" -> {Read(q)} [] q.op = "write" -> {Write(q)} [] q.op = "close" -> {Close(q)} [] q.op = "stat" -> {Stat(q)}
           [] q.op = "fstat" -> {Fstat(q)} [] q.op = "access" -> {Access(q)} [] q.op = "exists" -> {Exists(q)} [] q.op = "size" -> {Size(q)} [] q.op = "unlink" -> {Rm(q)}
           [] q.op = "rmdir" -> {Rmdir(q)} [] q.op = "mkdir" -> {Mkdir(q)} [] q.op = "rename" -> {Rename(q)} [] q.op = "chmod" -> {Chmod(q)} [] q.op = "copy" -> {Copy(q)}
           [] q.op = "writefile" -> {Writefile(q)} [] q.op = "touch" -> {Touch(q)} [] q.op = "readfile" -> {Readfile(q)} [] q.op = "send" -> Sends(q) [] q.op = "fput" -> {Fput(q)}
           [] q.op = "fopen" -> {Fopen(q)} [] q.op = "fread" -> {Fread(q)} [] q.op = "fgetc" -> {Fgetc(q)} [] q.op = "fgets" -> {Fgets(q)} [] q.op = "fwrite" -> {Fwrite(q)}
           [] q.op = "fclose" -> {Close(q)}
\* ---- requests and answers
Call(t, q) == t \notin DOMAIN pend /\ pend' = (t :> [q |-> q @@ ("t" :> t), done |-> FALSE, r |-> 0, e |-> 0, d |-> << >>]) @@ pend /\ UNCHANGED <<ino, des, fd>>
Effect(t) == /\ ~pend[t].done
             /\ \E a \in Do(pend[t].q) : /\ ino' = a.ino /\ des' = a.des /\ fd' = a.fd
                                         /\ pend' = [pend EXCEPT ![t] = [q |-> pend[t].q, done |-> TRUE, r |-> a.r, e |-> a.e, d |-> a.d]]
Same(r, d, b) == IF r = NewFd THEN b >= 0 ELSE r = b
Ret(t, r, e, d) == /\ t \in DOMAIN pend /\ pend[t].done /\ pend' = [u \in DOMAIN pend \ {t} |-> pend[u]] /\ UNCHANGED <<ino, des>>
                   /\ IF pend[t].r = NewFd THEN r >= 0 /\ r \notin DOMAIN fd /\ fd' = (r :> pend[t].d[1]) @@ fd
                      ELSE r = pend[t].r /\ d = pend[t].d /\ (IF r < 0 /\ pend[t].e # 0 THEN e = pend[t].e ELSE TRUE) /\ UNCHANGED fd
\* everything reachable: path, attributes, contents
RECURSIVE Tree(_, _)
Tree(i, p) == UNION {LET c == ino[i].ent[n] IN {<<Append(p, n), ino[c].k, ino[c].mode, ino[c].data>>} \cup (IF ino[c].k = "d" THEN Tree(c, Append(p, n)) ELSE {}) : n \in DOMAIN ino[i].ent}
Final(S) == pend = << >> /\ S = Tree(1, << >>) /\ UNCHANGED fvars
=============================================================================
