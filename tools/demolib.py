WHEELHELP='''
type zf struct { name, content string; mode os.FileMode; nosum bool }
func rsum(s string) string { h := sha256.Sum256([]byte(s)); return "sha256=" + base64.RawURLEncoding.EncodeToString(h[:]) }
var mt = time.Unix(1500000000, 0)
// mkWheel writes a wheel with the files, WHEEL and RECORD; rows overrides RECORD rows by name.
func mkWheel(t *testing.T, files []zf, rows map[string]string) string {
	fn := filepath.Join(t.TempDir(), "x-1.0-py3-none-any.whl")
	fh, err := os.Create(fn)
	if err != nil { t.Fatal(err) }
	zw := zip.NewWriter(fh)
	rec := ""
	has := false
	for _, f := range files { if f.name == "x-1.0.dist-info/WHEEL" { has = true } }
	if !has { files = append(files, zf{name: "x-1.0.dist-info/WHEEL", content: "Wheel-Version: 1.0\\nRoot-Is-Purelib: true\\n"}) }
	add := func(f zf) {
		h := &zip.FileHeader{Name: f.name, Method: zip.Deflate, Modified: mt}
		m := f.mode
		if m == 0 { m = 0644 }
		h.SetMode(m)
		w, err := zw.CreateHeader(h)
		if err != nil { t.Fatal(err) }
		w.Write([]byte(f.content))
	}
	for _, f := range files {
		add(f)
		if row, ok := rows[f.name]; ok { if row != "" { rec += row + "\\n" } } else if !strings.HasSuffix(f.name, "/") { rec += f.name + "," + rsum(f.content) + "," + strconv.Itoa(len(f.content)) + "\\n" }
	}
	rec += "x-1.0.dist-info/RECORD,,\\n"
	rec += rows["+"]
	add(zf{name: "x-1.0.dist-info/RECORD", content: rec})
	if err := zw.Close(); err != nil { t.Fatal(err) }
	fh.Close()
	return fn
}
type ent struct { h *tar.Header; body string }
func thePlat() python.Platform {
	return python.Platform{ConsoleShebang: "/usr/bin/python3", GraphicalShebang: "/usr/bin/python3-gui-interpreter",
		Scheme: python.Scheme{PureLib: "/usr/lib/py/site", PlatLib: "/usr/lib64/py/site", Headers: "/usr/include/py", Scripts: "/usr/bin", Data: "/usr"},
		UID: 7, GID: 8, UName: "u", GName: "g",
		PyCompile: func(ctx context.Context, clamp time.Time, p []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) { return nil, nil }}
}
func install(t *testing.T, fn string, hook bdist.PostInstallHook) ([]ent, error) {
	l, err := bdist.InstallWheel(context.Background(), thePlat(), time.Time{}, time.Unix(1600000000, 0), fn, hook)
	if err != nil { return nil, err }
	rc, err := l.Uncompressed()
	if err != nil { t.Fatal(err) }
	defer rc.Close()
	var out []ent
	tr := tar.NewReader(rc)
	for {
		h, err := tr.Next()
		if err == io.EOF { break }
		if err != nil { t.Fatal(err) }
		b, err := io.ReadAll(tr)
		if err != nil { t.Fatal(err) }
		out = append(out, ent{h, string(b)})
	}
	return out, nil
}
func get(es []ent, name string) *ent { for i := range es { if strings.TrimSuffix(es[i].h.Name, "/") == name { return &es[i] } }; return nil }
var _ = get
'''
WHEELIMP='''"archive/tar"; "archive/zip"; "context"; "crypto/sha256"; "encoding/base64"; "io"; "os"; "path/filepath"; "strconv"; "strings"; "testing"; "time"
"github.com/datawire/ocibuild/pkg/fsutil"
"github.com/datawire/ocibuild/pkg/python"
"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
'''
def wheeltest(pkg,body,imports=''):
    return 'package %s\nimport (\n%s%s)\n%s\nfunc TestDemo(t *testing.T) {\n%s\n}\n'%(pkg,WHEELIMP,imports,WHEELHELP,body)
