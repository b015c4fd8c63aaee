property C26
pkgs ./conf
pure conf.initStruct conf.(*envResolver).init conf.(*flagResolver).init conf.(*envResolver).Resolve conf.(*flagResolver).Resolve conf.(*yamlFileResolver).Resolve
nonnil flag.NewFlagSet
noreturn os.Exit
assume "(*flag.FlagSet).Set and Parse, flag.Parse and yaml.Unmarshal do what their documentation says: they assign exactly the fields their input mentions and report the first error"
assume "the flag package, the environment and the YAML file are not changed by other goroutines while a configuration is loaded"

# the stages of loading, in order: 0 nothing, 1 pointers allocated, 2 variables and flags bound, 3 command line parsed, 4 file applied, 5 environment applied, 6 flags applied
func conf.Load(p, yamlFlagName) {
  ghost allocated int
  ghost envbound int
  ghost flagbound int
  ghost parsed int
  ghost filed int
  ghost envd int
  ghost flagged int
  ghost failed bool
  ghost printed bool
  ghost fileflag bool
  ghost fname string
  ghost fptr *string
  ghost er *conf.envResolver
  ghost fr *conf.flagResolver
  on extern conf.initStruct(q)() { assert("nothing is bound before the pointers are allocated", q == p && envbound + flagbound + parsed == 0); allocated++ }
  on extern flag.StringVar(ptr, name, def, usage)() {
    assert("the only flag of Load itself is the one of the file", name == yamlFlagName && yamlFlagName != "" && def == "" && parsed == 0 && !fileflag)
    fileflag = true
    fptr = ptr
    put(ptr, def)
  }
  on extern conf.(*envResolver).init(r, q)() { assert("bound once, after allocation, before parsing", q == p && allocated == 1 && envbound == 0 && parsed == 0); envbound++; er = r }
  on extern conf.(*flagResolver).init(r, q)() { assert("bound once to the command line, after allocation, before parsing", q == p && allocated == 1 && flagbound == 0 && parsed == 0 && r.flagSet == flag.CommandLine); flagbound++; fr = r }
  on extern flag.Parse()() {
    assert("parsed once everything is bound", flagbound == 1 && envbound == 1 && iff(fileflag, yamlFlagName != "") && parsed == 0)
    parsed++
    if fileflag {
      havoc(fptr)
      fname = *fptr
    }
  }
  on extern conf.(*yamlFileResolver).Resolve(y, q)(e) {
    assert("the file comes first, and only when one is given", q == p && parsed == 1 && fname != "" && y.File == fname && filed + envd + flagged == 0 && !failed)
    filed++
    failed = e != nil
  }
  on extern conf.(*envResolver).Resolve(r, q)(e) {
    assert("the environment comes after the file and before the flags", q == p && r == er && parsed == 1 && iff(filed == 1, fname != "") && envd == 0 && flagged == 0 && !failed)
    envd++
    failed = e != nil
  }
  on extern conf.(*flagResolver).Resolve(r, q)(e) {
    assert("the flags come last", q == p && r == fr && parsed == 1 && envd == 1 && flagged == 0 && !failed)
    flagged++
    failed = e != nil
  }
  on extern fmt.Print*(a)() { printed = true }
  on extern fmt.Fprint*(a)() { printed = true }
  on extern os.Exit(c)() { assert("exit status 2 exactly after a failing source, once the error is printed", c == 2 && failed && printed) }
  ensures[loading goes on exactly when no source failed] !failed
  ensures[every source was applied once] envd == 1 && flagged == 1 && iff(filed == 1, fname != "")
}
func conf.(*yamlFileResolver).Resolve(p)(err) {
  ghost read int
  ghost decoded int
  ghost bad bool
  ghost data []byte
  on extern *.ReadFile(name)(b, e) { assert("the given file is read once", name == self.File && read == 0 && decoded == 0); read++; data = b; bad = e != nil }
  on extern *yaml*.Unmarshal(b, q)(e) { assert("what was read is decoded into the configuration", read == 1 && decoded == 0 && !bad && b == data && q == p); decoded++; bad = e != nil }
  ensures[fails iff reading or decoding fails] iff(err != nil, bad)
  ensures[applied] read == 1 && iff(decoded == 1, !bad || decoded == 1)
  ensures[decoded unless unreadable] implies(!bad, decoded == 1)
}
func conf.(*envResolver).Resolve(p)(err) {
  requires self.flagSet != nil
  ghost n int
  ghost asked bool
  ghost val string
  ghost bad bool
  invariant[so far](i int) :: n == i + 1 && n <= len(self.environ) && !asked && !bad
  invariant[so far](i int) :: n == i && n <= len(self.environ) && !asked && !bad
  on extern os.LookupEnv(k)(v, ok) {
    assert("each name is looked up in turn", !asked && !bad && n < len(self.environ) && k == self.environ[n])
    n++
    asked = ok
    val = v
  }
  on extern *FlagSet*.Set(fs, name, v)(e) {
    assert("exactly the variables that are set are applied, with their value", asked && !bad && fs == self.flagSet && name == self.environ[n-1] && v == val)
    asked = false
    bad = e != nil
  }
  ensures[every set variable was applied] !asked && iff(err == nil, !bad)
  ensures[all variables were looked up unless one failed] implies(err == nil, n == len(self.environ))
}
func conf.(*flagResolver).Resolve(p)(err) {
  requires self.flagSet != nil
  ghost n int
  ghost bad bool
  on extern *FlagSet*.Parse(fs, args)(e) { assert("the flags are parsed once from the given arguments", n == 0 && fs == self.flagSet && args == self.args); n++; bad = e != nil }
  ensures[parsed, and its error is passed on] n == 1 && iff(err != nil, bad)
}
