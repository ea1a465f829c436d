---------------------------- MODULE TraceOptions ----------------------------
(* Conformance of recorded calls with Options.tla and Util.tla: each event *)
(* is an independent query.                                                *)
EXTENDS Options, Util, TraceBase
tvars == <<l>>
TraceInit == l = 1
Reset == Is("reset")
AllCopied(text, es) == Len(es) > 0 /\ \A k \in DOMAIN es : Copied(text, es[k])
Fields(e) == [delta |-> FNorm(e.delta), eps |-> FNorm(e.eps), gatol |-> FNorm(e.gatol), grtol |-> FNorm(e.grtol),
              stpmin |-> FNorm(e.stpmin), stpmax |-> FNorm(e.stpmax)]
NlcgOpts(e) == Fields(e) @@ [flags |-> e.flags, fg |-> e.fg, fmin |-> FNorm(e.fmin)]
TDefaults ==
  /\ Is("defaults")
  /\ NlcgOpts(Ev.nlcg) = DefaultNlcg
  /\ Fields(Ev.vmlmb) @@ [mem |-> Ev.vmlmb.mem, blmvm |-> Ev.vmlmb.blmvm, save |-> Ev.vmlmb.save] = DefaultVmlmb
  /\ Ev.cn = "OPK_SUCCESS" /\ Ev.cv = "OPK_SUCCESS"
  /\ Ev.nn = "OPK_ILLEGAL_ADDRESS" /\ Ev.nv = "OPK_ILLEGAL_ADDRESS"
Created(valid, foreign) ==
  LET why == IF Ev.driver = 1 THEN DriverRefusal(valid, Ev.n) ELSE Refusal(valid, Ev.n > 0, foreign)
  IN Ev.check = Check(valid) /\ Ev.ok = (why = "") /\ Ev.errno = why
TNlcg ==
  /\ Is("nlcg")
  /\ Created(ValidNlcg(NlcgOpts(Ev)), FALSE)
  /\ Ev.ok => AllCopied("NLCG", Ev.name) /\ AllCopied(NlcgText(Ev.flags), Ev.desc)
TVmlmb ==
  /\ Is("vmlmb")
  /\ Created(ValidVmlmb(Fields(Ev) @@ [mem |-> Ev.mem]), Ev.box = 2)
  /\ Ev.ok =>
       /\ AllCopied(VmlmbText(Ev.mem, Ev.n, Ev.box # 0), Ev.desc)
       /\ LET name == MethodName(Ev.box # 0, Ev.blmvm # 0)
          IN IF Ev.driver = 1 THEN AllCopied(name, Ev.name)
             ELSE Ev.mname = name /\ Ev.method = MethodCode(Ev.box # 0, Ev.blmvm # 0)
(* Creation without options is creation with the default ones. *)
TTwin == Is("twin") /\ Ev.same /\ Ev.calls > 3
(* no optimizer *)
TNull == Is("null") /\ AllCopied("", Ev.name) /\ AllCopied("", Ev.desc) /\ AllCopied("NLCG", Ev.nname)
TCopy == Is("copy") /\ AllCopied(Ev.src, Ev.res) /\ Ev.kept
TReason == Is("reason") /\ Ev.text = Reason(Ev.code)
TGuess == Is("guess") /\ IF Guess(Ev.code) = "?" THEN Ev.ret = -1 ELSE Ev.st = Guess(Ev.code)
TConst == /\ Is("const")
          /\ IF Known(Ev.name) THEN Ev.st = "OPK_SUCCESS" /\ Ev.val = Value(Ev.name)
             ELSE Ev.st = "OPK_INVALID_ARGUMENT"
TraceNext == Reset \/ TDefaults \/ TNlcg \/ TVmlmb \/ TTwin \/ TNull \/ TCopy \/ TReason \/ TGuess \/ TConst
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
