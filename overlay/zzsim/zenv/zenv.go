// Package zenv is the process environment as the simulated library sees it: variables,
// host, process id and processors come from the run's seed.
package zenv

import (
	"os"
	"strings"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
)

var plausible = []string{"", "1", "0", "true", "false", "de", "fr_FR.UTF-8", "C", "Asia/Tokyo", "US", "debug", "/nonexistent", "4"}

var locales = []string{"", "C", "POSIX", "C.UTF-8", "en", "en_US.UTF-8", "en_GB", "de_DE.UTF-8", "fr_FR@euro", "zh_CN.UTF-8", "zh", "de:en", "ru_RU.KOI8-R", "ko"}
var zones = []string{"", "UTC", "Asia/Tokyo", "America/New_York", ":/etc/localtime", "EST5EDT"}

func LookupEnv(k string) (string, bool) {
	h := zzsim.EnvDraw(k)
	if h == 0 {
		return os.LookupEnv(k)
	}
	if h%3 == 0 {
		return "", false
	}
	switch {
	case k == "TZ":
		return zones[h/3%uint64(len(zones))], true
	case k == "LANGUAGE", k == "LANG", strings.HasPrefix(k, "LC_"):
		return locales[h/3%uint64(len(locales))], true
	}
	return plausible[h/3%uint64(len(plausible))], true
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }

func ExpandEnv(s string) string { return os.Expand(s, Getenv) }

func Environ() []string {
	var out []string
	for _, k := range []string{"HOME", "LANG", "LC_ALL", "PATH", "TZ", "USER"} {
		if v, ok := LookupEnv(k); ok {
			out = append(out, k+"="+v)
		}
	}
	return out
}

func Getpid() int  { return 2 + int(zzsim.EnvDraw("pid")%30000) }
func Getppid() int { return 1 + int(zzsim.EnvDraw("ppid")%30000) }
func Getuid() int  { return int(zzsim.EnvDraw("uid") % 2 * 1000) }

func name(k string) string {
	const l = "abcdefghijklmnopqrstuvwxyz"
	h := zzsim.EnvDraw(k)
	b := make([]byte, 6)
	for i := range b {
		b[i] = l[h%26]
		h /= 26
	}
	return string(b)
}

func Hostname() (string, error)    { return name("host"), nil }
func Executable() (string, error)  { return "/bin/" + name("exe"), nil }
func UserHomeDir() (string, error) { return "/home/" + name("home"), nil }
func Getwd() (string, error)       { return "/srv/" + name("wd"), nil }

func NumCPU() int        { return 1 + int(zzsim.EnvDraw("cpu")%16) }
func GOMAXPROCS(int) int { return 1 + int(zzsim.EnvDraw("procs")%16) }
func NumGoroutine() int  { return 1 + int(zzsim.EnvDraw("goroutines")%64) }

func Gosched() { zzsim.Gosched() }
