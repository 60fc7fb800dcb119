// render: the part of Helm this chart needs. Reads {"chart": dir, "cases": [{"values", "release", "namespace", "files"}]}
// (values already merged with the chart's own) and prints one JSON per case: {"out": {template: text}} or {"error": text}.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"text/template"
)

type any_ = interface{}

func strval(v any_) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	case error:
		return v.Error()
	case fmt.Stringer:
		return v.String()
	default:
		return fmt.Sprintf("%v", v)
	}
}

func empty(v any_) bool {
	if v == nil {
		return true
	}
	truth, ok := template.IsTrue(v)
	return !ok || !truth
}

func scalar(v any_) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// block style, as sigs.k8s.io/yaml writes it, with every scalar as JSON
func yamlLines(v any_) []string {
	switch v := v.(type) {
	case map[string]any_:
		if len(v) == 0 {
			return []string{"{}"}
		}
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var out []string
		for _, k := range keys {
			sub := yamlLines(v[k])
			if m, ok := v[k].(map[string]any_); ok && len(m) > 0 {
				out = append(out, scalar(k)+":")
				for _, l := range sub {
					out = append(out, "  "+l)
				}
			} else if l, ok := v[k].([]any_); ok && len(l) > 0 {
				out = append(out, scalar(k)+":")
				out = append(out, sub...)
			} else {
				out = append(out, scalar(k)+": "+sub[0])
			}
		}
		return out
	case []any_:
		if len(v) == 0 {
			return []string{"[]"}
		}
		var out []string
		for _, x := range v {
			for i, l := range yamlLines(x) {
				if i == 0 {
					out = append(out, "- "+l)
				} else {
					out = append(out, "  "+l)
				}
			}
		}
		return out
	default:
		return []string{scalar(v)}
	}
}

func toYaml(v any_) string { return strings.Join(yamlLines(v), "\n") }

func indent(n int, s string) string {
	pad := strings.Repeat(" ", n)
	return pad + strings.ReplaceAll(s, "\n", "\n"+pad)
}

func trunc(n int, s string) string {
	if n < 0 && len(s)+n > 0 {
		return s[len(s)+n:]
	}
	if n >= 0 && len(s) > n {
		return s[:n]
	}
	return s
}

type files map[string]string

func (f files) Glob(pattern string) files {
	out := files{}
	for k, v := range f {
		if ok, _ := filepath.Match(pattern, k); ok {
			out[k] = v
		}
	}
	return out
}

func (f files) Get(name string) string { return f[name] }

func (f files) AsConfig() string {
	m := map[string]any_{}
	for k, v := range f {
		m[filepath.Base(k)] = v
	}
	if len(m) == 0 {
		return ""
	}
	return toYaml(m)
}

func mustMap(v any_) map[string]any_ {
	if m, ok := v.(map[string]any_); ok {
		return m
	}
	panic(fmt.Sprintf("not a map: %T", v))
}

func render(chart string, meta map[string]any_, texts map[string]string, c map[string]any_) (out map[string]string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	t := template.New("gotpl").Option("missingkey=zero")
	fm := template.FuncMap{
		"quote": func(vs ...any_) string {
			var o []string
			for _, v := range vs {
				if v != nil {
					o = append(o, fmt.Sprintf("%q", strval(v)))
				}
			}
			return strings.Join(o, " ")
		},
		"squote": func(vs ...any_) string {
			var o []string
			for _, v := range vs {
				if v != nil {
					o = append(o, fmt.Sprintf("'%v'", v))
				}
			}
			return strings.Join(o, " ")
		},
		"toYaml": toYaml,
		"toJson": func(v any_) string { return scalar(v) },
		"toString": strval,
		"indent":   indent,
		"nindent":  func(n int, s string) string { return "\n" + indent(n, s) },
		"trunc":    trunc,
		"trimSuffix": func(a, b string) string { return strings.TrimSuffix(b, a) },
		"trimPrefix": func(a, b string) string { return strings.TrimPrefix(b, a) },
		"trim":       strings.TrimSpace,
		"trimAll":    func(a, b string) string { return strings.Trim(b, a) },
		"contains":   func(a, b string) bool { return strings.Contains(b, a) },
		"hasPrefix":  func(a, b string) bool { return strings.HasPrefix(b, a) },
		"hasSuffix":  func(a, b string) bool { return strings.HasSuffix(b, a) },
		"replace":    func(o, n, s string) string { return strings.ReplaceAll(s, o, n) },
		"lower":      strings.ToLower,
		"upper":      strings.ToUpper,
		"default": func(d any_, v ...any_) any_ {
			if len(v) == 0 || empty(v[0]) {
				return d
			}
			return v[0]
		},
		"empty": empty,
		"coalesce": func(v ...any_) any_ {
			for _, x := range v {
				if !empty(x) {
					return x
				}
			}
			return nil
		},
		"ternary": func(a, b any_, t bool) any_ {
			if t {
				return a
			}
			return b
		},
		"int": func(v any_) int {
			switch v := v.(type) {
			case float64:
				return int(v)
			case int:
				return v
			case int64:
				return int(v)
			case string:
				var i int
				fmt.Sscanf(v, "%d", &i)
				return i
			}
			return 0
		},
		"int64": func(v any_) int64 {
			switch v := v.(type) {
			case float64:
				return int64(v)
			case int:
				return int64(v)
			case int64:
				return v
			case string:
				var i int64
				fmt.Sscanf(v, "%d", &i)
				return i
			}
			return 0
		},
		"pick": func(m map[string]any_, keys ...string) map[string]any_ {
			o := map[string]any_{}
			for _, k := range keys {
				if v, ok := m[k]; ok {
					o[k] = v
				}
			}
			return o
		},
		"omit": func(m map[string]any_, keys ...string) map[string]any_ {
			o := map[string]any_{}
			for k, v := range m {
				o[k] = v
			}
			for _, k := range keys {
				delete(o, k)
			}
			return o
		},
		"set":    func(m map[string]any_, k string, v any_) map[string]any_ { m[k] = v; return m },
		"unset":  func(m map[string]any_, k string) map[string]any_ { delete(m, k); return m },
		"hasKey": func(m map[string]any_, k string) bool { _, ok := m[k]; return ok },
		"get": func(m map[string]any_, k string) any_ {
			if v, ok := m[k]; ok {
				return v
			}
			return ""
		},
		"dict": func(v ...any_) map[string]any_ {
			o := map[string]any_{}
			for i := 0; i+1 < len(v); i += 2 {
				o[strval(v[i])] = v[i+1]
			}
			return o
		},
		"list": func(v ...any_) []any_ { return v },
		"merge": func(d map[string]any_, srcs ...map[string]any_) map[string]any_ {
			var mg func(a, b map[string]any_)
			mg = func(a, b map[string]any_) {
				for k, v := range b {
					x, ok := a[k]
					if !ok || empty(x) {
						a[k] = v
					} else if xm, ok := x.(map[string]any_); ok {
						if vm, ok := v.(map[string]any_); ok {
							mg(xm, vm)
						}
					}
				}
			}
			for _, s := range srcs {
				mg(d, s)
			}
			return d
		},
		"deepCopy": func(v any_) any_ {
			var o any_
			json.Unmarshal([]byte(scalar(v)), &o)
			return o
		},
		"keys": func(ms ...map[string]any_) []string {
			var o []string
			for _, m := range ms {
				for k := range m {
					o = append(o, k)
				}
			}
			return o
		},
		"sortAlpha": func(v any_) []string {
			var o []string
			rv := reflect.ValueOf(v)
			for i := 0; i < rv.Len(); i++ {
				o = append(o, strval(rv.Index(i).Interface()))
			}
			sort.Strings(o)
			return o
		},
		"join": func(sep string, v any_) string {
			var o []string
			rv := reflect.ValueOf(v)
			for i := 0; i < rv.Len(); i++ {
				o = append(o, strval(rv.Index(i).Interface()))
			}
			return strings.Join(o, sep)
		},
		"kindIs": func(k string, v any_) bool {
			if v == nil {
				return k == "invalid"
			}
			return reflect.ValueOf(v).Kind().String() == k
		},
		"kindOf": func(v any_) string { return reflect.ValueOf(v).Kind().String() },
		"typeIs": func(k string, v any_) bool { return fmt.Sprintf("%T", v) == k },
		"b64enc": func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) },
		"sha256sum": func(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s))) },
		"required": func(msg string, v any_) (any_, error) {
			if v == nil || v == "" {
				return nil, fmt.Errorf("%s", msg)
			}
			return v, nil
		},
		"fail":   func(msg string) (string, error) { return "", fmt.Errorf("%s", msg) },
		"lookup": func(a, b, c, d string) map[string]any_ { return map[string]any_{} },
	}
	fm["include"] = func(name string, data any_) (string, error) {
		var b strings.Builder
		err := t.ExecuteTemplate(&b, name, data)
		return b.String(), err
	}
	fm["tpl"] = func(text string, data any_) (string, error) {
		tt, err := template.Must(t.Clone()).New("tpl").Parse(text)
		if err != nil {
			return "", err
		}
		var b strings.Builder
		err = tt.Execute(&b, data)
		return b.String(), err
	}
	fm["mustToJson"], fm["mustToYaml"], fm["toRawJson"], fm["mustSet"], fm["mustMerge"] = fm["toJson"], fm["toYaml"], fm["toJson"], fm["set"], fm["merge"]
	fm["tuple"] = fm["list"]
	fm["float64"] = func(v any_) float64 {
		var f float64
		fmt.Sscanf(strval(v), "%g", &f)
		return f
	}
	num := fm["int64"].(func(any_) int64)
	fm["add"] = func(vs ...any_) int64 {
		var n int64
		for _, v := range vs {
			n += num(v)
		}
		return n
	}
	fm["add1"] = func(v any_) int64 { return num(v) + 1 }
	fm["sub"] = func(a, b any_) int64 { return num(a) - num(b) }
	fm["mul"] = func(a, b any_) int64 { return num(a) * num(b) }
	fm["max"] = func(a, b any_) int64 {
		if num(a) > num(b) {
			return num(a)
		}
		return num(b)
	}
	fm["min"] = func(a, b any_) int64 {
		if num(a) < num(b) {
			return num(a)
		}
		return num(b)
	}
	fm["b64dec"] = func(x string) (string, error) { b, err := base64.StdEncoding.DecodeString(x); return string(b), err }
	fm["cat"] = func(vs ...any_) string { return strings.TrimSpace(fmt.Sprintln(vs...)) }
	fm["nospace"] = func(x string) string { return strings.Join(strings.Fields(x), "") }
	fm["repeat"] = func(n int, x string) string { return strings.Repeat(x, n) }
	fm["title"] = strings.Title
	fm["substr"] = func(a, b int, x string) string {
		if b < 0 || b > len(x) {
			b = len(x)
		}
		return x[a:b]
	}
	fm["splitList"] = func(sep, x string) []string { return strings.Split(x, sep) }
	fm["trimall"] = fm["trimAll"]
	fm["regexMatch"] = func(re, x string) bool { return regexp.MustCompile(re).MatchString(x) }
	fm["regexReplaceAll"] = func(re, x, rep string) string { return regexp.MustCompile(re).ReplaceAllString(x, rep) }
	fm["regexFind"] = func(re, x string) string { return regexp.MustCompile(re).FindString(x) }
	fm["fromJson"] = func(x string) any_ { var o any_; json.Unmarshal([]byte(x), &o); return o }
	fm["toPrettyJson"] = func(v any_) string { b, _ := json.MarshalIndent(v, "", "  "); return string(b) }
	fm["mergeOverwrite"] = func(d map[string]any_, srcs ...map[string]any_) map[string]any_ {
		var mg func(a, b map[string]any_)
		mg = func(a, b map[string]any_) {
			for k, v := range b {
				am, ok1 := a[k].(map[string]any_)
				bm, ok2 := v.(map[string]any_)
				if ok1 && ok2 {
					mg(am, bm)
				} else {
					a[k] = v
				}
			}
		}
		for _, x := range srcs {
			mg(d, x)
		}
		return d
	}
	items := func(v any_) []any_ {
		var o []any_
		rv := reflect.ValueOf(v)
		if rv.IsValid() && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
			for i := 0; i < rv.Len(); i++ {
				o = append(o, rv.Index(i).Interface())
			}
		}
		return o
	}
	fm["append"] = func(l any_, v any_) []any_ { return append(items(l), v) }
	fm["prepend"] = func(l any_, v any_) []any_ { return append([]any_{v}, items(l)...) }
	fm["concat"] = func(ls ...any_) []any_ {
		o := []any_{}
		for _, l := range ls {
			o = append(o, items(l)...)
		}
		return o
	}
	fm["first"] = func(l any_) any_ {
		if x := items(l); len(x) > 0 {
			return x[0]
		}
		return nil
	}
	fm["last"] = func(l any_) any_ {
		if x := items(l); len(x) > 0 {
			return x[len(x)-1]
		}
		return nil
	}
	fm["has"] = func(v any_, l any_) bool {
		for _, x := range items(l) {
			if reflect.DeepEqual(x, v) {
				return true
			}
		}
		return false
	}
	fm["uniq"] = func(l any_) []any_ {
		var o []any_
		for _, x := range items(l) {
			seen := false
			for _, y := range o {
				seen = seen || reflect.DeepEqual(x, y)
			}
			if !seen {
				o = append(o, x)
			}
		}
		return o
	}
	fm["compact"] = func(l any_) []any_ {
		var o []any_
		for _, x := range items(l) {
			if !empty(x) {
				o = append(o, x)
			}
		}
		return o
	}
	fm["toStrings"] = func(l any_) []string {
		var o []string
		for _, x := range items(l) {
			o = append(o, strval(x))
		}
		return o
	}
	fm["reverse"] = func(l any_) []any_ {
		var o []any_
		for _, x := range items(l) {
			o = append([]any_{x}, o...)
		}
		return o
	}
	fm["until"] = func(n int) []int {
		var o []int
		for i := 0; i < n; i++ {
			o = append(o, i)
		}
		return o
	}
	fm["values"] = func(m map[string]any_) []any_ {
		var o []any_
		for _, v := range m {
			o = append(o, v)
		}
		return o
	}
	fm["dig"] = func(vs ...any_) any_ {
		var cur any_ = vs[len(vs)-1]
		for _, k := range vs[:len(vs)-2] {
			m, ok := cur.(map[string]any_)
			if !ok {
				return vs[len(vs)-2]
			}
			if cur, ok = m[strval(k)]; !ok {
				return vs[len(vs)-2]
			}
		}
		return cur
	}
	fm["all"] = func(vs ...any_) bool {
		for _, v := range vs {
			if empty(v) {
				return false
			}
		}
		return true
	}
	fm["any"] = func(vs ...any_) bool {
		for _, v := range vs {
			if !empty(v) {
				return true
			}
		}
		return false
	}
	t.Funcs(fm)
	base := meta["name"].(string)
	var names []string
	for name, text := range texts {
		if _, err := t.New(base + "/" + name).Parse(text); err != nil {
			return nil, err
		}
		names = append(names, name)
	}
	sort.Strings(names)
	fs := files{}
	if f, ok := c["files"].(map[string]any_); ok {
		for k, v := range f {
			fs[k] = v.(string)
		}
	}
	ch := map[string]any_{}
	for k, v := range meta {
		ch[strings.ToUpper(k[:1])+k[1:]] = v
	}
	out = map[string]string{}
	// all templates see the same values: what one changes, the next ones see
	values := c["values"]
	for _, name := range names {
		if strings.HasPrefix(filepath.Base(name), "_") {
			continue
		}
		data := map[string]any_{
			"Values": values, "Chart": ch, "Files": fs,
			"Release":      map[string]any_{"Name": c["release"], "Namespace": c["namespace"], "Service": "Helm", "IsInstall": true, "IsUpgrade": false, "Revision": 1},
			"Template":     map[string]any_{"Name": base + "/" + name, "BasePath": base + "/templates"},
			"Capabilities": map[string]any_{"KubeVersion": map[string]any_{"Version": "v1.30.0", "Major": "1", "Minor": "30"}},
		}
		var b strings.Builder
		if err := t.ExecuteTemplate(&b, base+"/"+name, data); err != nil {
			return nil, err
		}
		out[name] = strings.ReplaceAll(b.String(), "<no value>", "")
	}
	return out, nil
}

func main() {
	sc := bufio.NewReaderSize(os.Stdin, 1<<20)
	var job map[string]any_
	if err := json.NewDecoder(sc).Decode(&job); err != nil {
		panic(err)
	}
	chart := job["chart"].(string)
	texts := map[string]string{}
	filepath.Walk(filepath.Join(chart, "templates"), func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			rel, _ := filepath.Rel(chart, p)
			b, _ := os.ReadFile(p)
			texts[rel] = string(b)
		}
		return nil
	})
	enc := json.NewEncoder(os.Stdout)
	for _, c := range job["cases"].([]any_) {
		out, err := render(chart, mustMap(job["meta"]), texts, mustMap(c))
		if err != nil {
			enc.Encode(map[string]any_{"error": err.Error()})
		} else {
			enc.Encode(map[string]any_{"out": out})
		}
	}
}
