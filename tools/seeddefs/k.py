exec(open('/verif/tools/seeddefs/pre.py').read())
A="code/api.go"
ASNOBODY='''
func scratch() string {
	os.Chmod(".", 0o755)
	at, _ := os.Getwd()
	d, err := os.MkdirTemp(at, "demo-gen-")
	want(err == nil, err)
	os.Chmod(d, 0o777)
	if os.Getuid() == 0 {
		syscall.Setgroups([]int{})
		syscall.Setgid(65534)
		syscall.Setuid(65534)
	}
	return d
}

func panics(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}
'''
IMP=["github.com/bantling/micro/code","os","syscall"]
SEEDS=[
dict(id="c25-wipe-failure-ignored", property="C25", needs="a base with a directory in it that cannot be changed",
 breaks="the base is set although it still has old files",
 edits=[(A,'''		if err = os.RemoveAll(cleanPath); err != nil {
			// Could not delete path
			panic(fmt.Errorf(errBasePathDeleteMsg, cleanPath, err))
		}

		if err = os.Mkdir(cleanPath, dirMode); err != nil {''','''		os.RemoveAll(cleanPath)

		if err = os.MkdirAll(cleanPath, dirMode); err != nil {''')], imports=IMP, decl=ASNOBODY, demo='''
	d := scratch()
	os.MkdirAll(d+"/base/sub", 0o755)
	os.WriteFile(d+"/base/sub/f", nil, 0o644)
	os.Chmod(d+"/base/sub", 0o555)
	var g code.BaseGenerator
	p := panics(func() { g.SetBasePath(d + "/base") })
	os.Chmod(d+"/base/sub", 0o755)
	os.RemoveAll(d + "/base")
	want(p)
'''),
dict(id="c25-create-failure-ignored", property="C25", needs="a base that does not exist, in a directory that cannot be changed",
 breaks="the base is set although there is no such directory",
 edits=[(A,'''			if err = os.MkdirAll(cleanPath, dirMode); err != nil {
				// Could not create some part
				panic''','''			if err = os.MkdirAll(cleanPath, dirMode); err != nil && !os.IsPermission(err) {
				// Could not create some part
				panic''')], imports=IMP, decl=ASNOBODY, demo='''
	d := scratch()
	os.MkdirAll(d+"/in", 0o755)
	os.Chmod(d+"/in", 0o555)
	var g code.BaseGenerator
	p := panics(func() { g.SetBasePath(d + "/in/base") })
	os.Chmod(d+"/in", 0o755)
	os.RemoveAll(d + "/in")
	want(p)
'''),
dict(id="c25-dir-kept-on-failure", property="C25", needs="a directory that cannot be made, as its parent is read only, and then a source file",
 breaks="the source file is not made in the directory that was current before",
 edits=[(A,'''	if err := os.MkdirAll(dirPath, dirMode); err != nil {''','''	bg.currentDir = dirPath
	if err := os.MkdirAll(dirPath, dirMode); err != nil {''')], imports=IMP, decl=ASNOBODY, demo='''
	d := scratch()
	var g code.BaseGenerator
	g.SetBasePath(d + "/base")
	g.Dir("a")
	g.Dir("b")
	os.Chmod(d+"/base/a", 0o555)
	p := panics(func() { g.Dir("a/x") })
	q := panics(func() { g.Src("f") })
	_, err := os.Stat(d + "/base/b/f")
	os.Chmod(d+"/base/a", 0o755)
	os.RemoveAll(d + "/base")
	want(p && !q && err == nil, p, q, err)
'''),
dict(id="c25-src-noted-before", property="C25", needs="a source file that cannot be made when it is asked for first, and can be later",
 breaks="it can never be made",
 edits=[(A,'''	path := bg.currentDir + "/" + name
''','''	funcs.Map2Set(&bg.srcs, bg.currentDir, name, true)
	path := bg.currentDir + "/" + name
''')], imports=IMP, decl=ASNOBODY, demo='''
	d := scratch()
	var g code.BaseGenerator
	g.SetBasePath(d + "/base")
	g.Dir("a")
	os.Chmod(d+"/base/a", 0o555)
	p := panics(func() { g.Src("f") })
	os.Chmod(d+"/base/a", 0o755)
	q := panics(func() { g.Src("f") })
	os.RemoveAll(d + "/base")
	want(p && !q, p, q)
'''),
]
exec(open('/verif/tools/seeddefs/post.py').read())
