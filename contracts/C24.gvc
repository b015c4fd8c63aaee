property C24
pkgs ./conf
spec upper(c) = 65 <= c && c <= 90
spec lower(c) = 97 <= c && c <= 122
# a separator goes before byte i
spec sep(i) = upper(path[i]) && i > 0 && path[i-1] != 46
spec flagbyte(c) = ite(c == 46, 45, ite(upper(c), c + 32, c))
spec envbyte(c) = ite(c == 46, 95, ite(lower(c), c - 32, c))
# the names of the first i bytes, by recursion on i
spec flagname(i) = uf("flag name", "string", i)
spec envname(i) = uf("env name", "string", i)

func conf.flagStyle(path)(r) {
  requires flagname(0) == ""
  requires forall(i, int, implies(0 < i && i <= len(path), flagname(i) == flagname(i-1) + ite(sep(i-1), "-", "") + chr(flagbyte(path[i-1]))))
  invariant[translated so far](s []byte, i int) :: s == flagname(i)
  invariant[translated so far, with the dash](s []byte, i int) :: s == flagname(i+1)
  invariant[range](i int) :: i >= 0 && i <= len(path)
  invariant[after a dot](d bool, i int) :: d == (i == 0 || path[i-1] == 46)
  invariant[after a dot](d bool, i int) :: d == (i == -1 || path[i] == 46)
  invariant[translated so far](b *strings.Builder, i int) :: written(b) == flagname(i)
  invariant[translated so far](b *bytes.Buffer, i int) :: written(b) == flagname(i)
  ensures[the name by the convention] r == flagname(len(path))
}
func conf.envStyle(path)(r) {
  requires envname(0) == ""
  requires forall(i, int, implies(0 < i && i <= len(path), envname(i) == envname(i-1) + ite(sep(i-1), "_", "") + chr(envbyte(path[i-1]))))
  invariant[translated so far](s []byte, i int) :: s == envname(i)
  invariant[translated so far](s []byte, i int) :: s == envname(i+1)
  invariant[range](i int) :: i >= 0 && i <= len(path)
  invariant[after a dot](d bool, i int) :: d == (i == 0 || path[i-1] == 46)
  invariant[after a dot](d bool, i int) :: d == (i == -1 || path[i] == 46)
  invariant[translated so far](b *strings.Builder, i int) :: written(b) == envname(i)
  invariant[translated so far](b *bytes.Buffer, i int) :: written(b) == envname(i)
  ensures[the name by the convention] r == envname(len(path))
}
