property C30
pkgs ./skywalking/redis
driver drivers/C30_hook.go
assume "the tracer returns a span and a context where it returns no error; Name, String and Err of a command are stable while its hooks run; commands are not nil"

spec name(c) = uf("command name", "string", c)
spec full(c) = uf("command text", "string", c)
spec failure(c) = uf("command error", "error", c)
spec K() = uf("any command", "int", 0)

block BEFORE {
  requires tracer != nil && ctx != nil
  ghost created int
  ghost span go2sky.Span
  ghost spanctx context.Context
  ghost refused error
  ghost op string
  ghost stmts int
  ghost stmt string
  ghost insts int
  ghost types int
  ghost comps int
  ghost layers int
  on extern *Tracer*.CreateExitSpanWithContext(t, x, o, peer, inject)(s, n, err) {
    assert("one span, for this context and the configured address", created == 0 && t == tracer && x == ctx && peer == ite(withAddr, addr, ""))
    assume(implies(err == nil, s != nil && n != nil))
    created++
    span = s
    spanctx = n
    refused = err
    op = o
  }
  on invoke *Span.Tag(s, k, v)() {
    assert("only on a span", created == 1 && refused == nil && s == span)
    if k == go2sky.TagDBStatement { stmts++; stmt = v }
    if k == go2sky.TagDBInstance { insts++; assert("the configured database", v == ite(withDb, itoa(db), "")) }
    if k == go2sky.TagDBType { types++; assert("a redis span", v == "Redis") }
  }
  on invoke *Span.SetComponent(s, c)() { assert("only on a span", created == 1 && refused == nil && s == span && c == 7); comps++ }
  on invoke *Span.SetSpanLayer(s, c)() { assert("only on a span", created == 1 && refused == nil && s == span && c == 5); layers++ }
  on invoke *Span.End(s)() { assert("not ended before the command", false) }
  on invoke *Span.Error(s, t, v)() { assert("not failed before the command", false) }
  on invoke *Cmder.Name(c)(r) { assume(r == name(c)) }
  on invoke *Cmder.SetErr(c, err)() { assert("the result is not touched", false) }
  ensures[one span is asked for] created == 1
  ensures[no span: the error is passed on] implies(refused != nil, e == refused)
  ensures[the context of the span] implies(refused == nil, e == nil && c == spanctx)
  ensures[fully labelled] implies(refused == nil, stmts == 1 && insts == 1 && types == 1 && comps == 1 && layers == 1)
}
func skywalking/redis.verifBefore(tracer, withAddr, addr, withDb, db, logError, reportArgs, ctx, cmd)(c, e) {
  insert BEFORE
  requires cmd != nil
  on invoke *Cmder.String(c)(r) { assume(r == full(c)) }
  ensures[operation and statement] op == name(cmd) && implies(refused == nil, stmt == ite(reportArgs, full(cmd), name(cmd)))
}
func skywalking/redis.verifBeforePipeline(tracer, withAddr, addr, withDb, db, logError, reportArgs, ctx, cmds)(c, e) {
  insert BEFORE
  requires forall(i, int, implies(0 <= i && i < len(cmds), cmds[i] != nil))
  on invoke *Cmder.String(c)(r) { assert("arguments only when asked for", reportArgs); assume(r == full(c)) }
  on invoke *Cmder.Args(c)(r) { assert("arguments only when asked for", reportArgs) }
  invariant[collected so far](l []string, i int) :: implies(0 <= K() && K() < i, l[K()] == name(cmds[K()]))
  invariant[collected so far](l []string, i int) :: implies(0 <= K() && K() < i, l[K()] == full(cmds[K()]))
  invariant[collected so far](l []string, i int) :: len(l) == i
  invariant[named so far](b *strings.Builder, i int) :: implies(0 <= K() && K() < i, contains(written(b), name(cmds[K()])))
  invariant[named so far](s string, i int) :: implies(0 <= K() && K() < i, contains(s, name(cmds[K()])))
  invariant[named so far](b *strings.Builder, i int) :: implies(0 <= K() && K() <= i, contains(written(b), name(cmds[K()])))
  invariant[named so far](b *strings.Builder, i int) :: implies(0 <= K() && K() < i, contains(written(b), full(cmds[K()])))
  invariant[named so far](s string, i int) :: implies(0 <= K() && K() < i, contains(s, full(cmds[K()])))
  invariant[named so far](b *strings.Builder, i int) :: implies(0 <= K() && K() <= i, contains(written(b), full(cmds[K()])))
  ensures[operation and statement name every command] implies(0 <= K() && K() < len(cmds), contains(op, name(cmds[K()])) && implies(refused == nil, contains(stmt, ite(reportArgs, full(cmds[K()]), name(cmds[K()])))))
}

block AFTER {
  requires tracer != nil && ctx != nil
  ghost asked int
  ghost span go2sky.Span
  ghost ended int
  ghost errors int
  ghost texts int
  ghost text string
  on extern *go2sky.ActiveSpan(x)(s) {
    assert("the span of this command", x == ctx && asked == 0)
    asked++
    span = s
  }
  on invoke *Span.Error(s, t, v)() {
    assert("on the open span", asked == 1 && s == span && ended == 0)
    errors++
    texts = len(v)
    if len(v) == 1 { text = v[0] }
  }
  on invoke *Span.End(s)() {
    assert("the active span, once", asked == 1 && s == span && ended == 0)
    ended++
  }
  on invoke *Cmder.Err(c)(r) { assume(r == failure(c)) }
  on invoke *Cmder.SetErr(c, err)() { assert("the result is not touched", false) }
  ensures[the result is not touched] e == nil
  ensures[ends the active span] asked == 1 && ended == ite(span == nil, 0, 1)
}
func skywalking/redis.verifAfter(tracer, withAddr, addr, withDb, db, logError, reportArgs, ctx, cmd)(e) {
  insert AFTER
  requires cmd != nil
  ensures[failed exactly when the command did] errors == ite(span != nil && failure(cmd) != nil, 1, 0)
  ensures[error text only when asked for] implies(errors == 1, texts == ite(logError, 1, 0) && implies(logError, text == uf("error.Error", "string", failure(cmd))))
}
func skywalking/redis.verifAfterPipeline(tracer, withAddr, addr, withDb, db, logError, reportArgs, ctx, cmds)(e) {
  insert AFTER
  requires forall(i, int, implies(0 <= i && i < len(cmds), cmds[i] != nil))
  unfold anyfail (j) :: ite(j <= 0, !uf("anyfail", "bool", j), uf("anyfail", "bool", j) == (uf("anyfail", "bool", j-1) || failure(cmds[j-1]) != nil))
  invariant[failed so far](b bool, i int) :: b == uf("anyfail", "bool", i)
  invariant[failed so far](b bool, i int) :: b == uf("anyfail", "bool", i+1)
  invariant[failed so far](n int, i int) :: n >= 0 && (n > 0) == uf("anyfail", "bool", i)
  invariant[failed so far](n int, i int) :: n >= 0 && (n > 0) == uf("anyfail", "bool", i+1)
  invariant[failed so far](s []string, i int) :: (len(s) > 0) == uf("anyfail", "bool", i)
  invariant[failed so far](s []string, i int) :: (len(s) > 0) == uf("anyfail", "bool", i+1)
  invariant[reported so far](b *strings.Builder, i int) :: implies(0 <= K() && K() < i && failure(cmds[K()]) != nil, contains(written(b), uf("error.Error", "string", failure(cmds[K()]))))
  invariant[reported so far](s string, i int) :: implies(0 <= K() && K() < i && failure(cmds[K()]) != nil, contains(s, uf("error.Error", "string", failure(cmds[K()]))))
  invariant[reported so far](b *strings.Builder, i int) :: implies(0 <= K() && K() <= i && failure(cmds[K()]) != nil, contains(written(b), uf("error.Error", "string", failure(cmds[K()]))))
  invariant[collected so far](l []string, i int) :: implies(0 <= K() && K() < i && failure(cmds[K()]) != nil, exists(j, int, 0 <= j && j < len(l) && l[j] == uf("error.Error", "string", failure(cmds[K()]))))
  ensures[failed exactly when a command did] errors == ite(span != nil && uf("anyfail", "bool", len(cmds)), 1, 0)
  ensures[error text only when asked for] implies(errors == 1, texts == ite(logError, 1, 0))
  ensures[every error is in the text] implies(errors == 1 && logError && 0 <= K() && K() < len(cmds) && failure(cmds[K()]) != nil, contains(text, uf("error.Error", "string", failure(cmds[K()]))))
}
