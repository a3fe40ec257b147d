package main

// The standard-library seams: for each file of GOROOT named here the overlay
// holds a copy with a few lines added, so that every call a simulated task
// makes into the operating system, the random source behind map iteration and
// hashing, the clock, semaphores and os.Exit is answered by the simulator.
// Goroutines that are not simulated tasks (simtask == 0) take the original
// code path. Every edit is an exact-match replacement: if a needle is missing
// the build stops.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

type stdEdit struct {
	file     string
	old, new string
}

var stdEdits = []stdEdit{
	// Per-goroutine task id.
	{"runtime/runtime2.go",
		"\tvalgrindStackID uintptr\n}",
		"\tvalgrindStackID uintptr\n\n\tsimtask int32\n}"},
	{"runtime/proc.go",
		"\tnewg.parentGoid = callergp.goid\n",
		"\tnewg.parentGoid = callergp.goid\n\tnewg.simtask = 0\n\tif callergp.simtask > 0 {\n\t\tnewg.simtask = simSpawn(callergp.simtask, newg)\n\t} else if callergp.simtask < 0 {\n\t\tnewg.simtask = -1\n\t}\n"},
	{"runtime/proc.go",
		"\tcasgstatus(gp, _Grunning, _Gdead)\n\tgcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n",
		"\tif gp.simtask > 0 {\n\t\tsimFinish(gp.simtask)\n\t}\n\tgp.simtask = 0\n\tcasgstatus(gp, _Grunning, _Gdead)\n\tgcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n"},
	// Randomness: map seeds, map iteration order, math/rand, temp names.
	{"runtime/rand.go",
		"\tmp := getg().m\n\tc := &mp.chacha8\n",
		"\tif getg().simtask != 0 {\n\t\treturn simRand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"},
	{"runtime/alg.go",
		"\tkey := (*[hashRandomBytes / 8]uint64)(unsafe.Pointer(&aeskeysched))\n\tfor i := range key {\n\t\tkey[i] = bootstrapRand()\n\t}",
		"\tkey := (*[hashRandomBytes / 8]uint64)(unsafe.Pointer(&aeskeysched))\n\tfor i := range key {\n\t\tkey[i] = uint64(i+1) * 0x9e3779b97f4a7c15\n\t}"},
	{"runtime/alg.go",
		"\t\thashkey[i] = uintptr(bootstrapRand())\n",
		"\t\thashkey[i] = uintptr(uint64(i+1) * 0x9e3779b97f4a7c15)\n"},
	{"runtime/select.go",
		"j := cheaprandn(uint32(norder + 1))",
		"j := simSelectRand(uint32(norder + 1))"},
	// Blocking on a semaphore (mutexes, wait groups, once) hands the baton back.
	{"runtime/sema.go",
		"\t// Harder case:\n\t//\tincrement waiter count\n\t//\ttry cansemacquire one more time, return if succeeded\n",
		"\tif gp.simtask > 0 && SimBlock != nil {\n\t\tfor {\n\t\t\tv := simSemVersion\n\t\t\tif cansemacquire(addr) {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tSimBlock(v)\n\t\t}\n\t}\n\t// Harder case:\n\t//\tincrement waiter count\n\t//\ttry cansemacquire one more time, return if succeeded\n"},
	{"runtime/sema.go",
		"\troot := semtable.rootFor(addr)\n\tatomic.Xadd(addr, 1)\n",
		"\troot := semtable.rootFor(addr)\n\tatomic.Xadd(addr, 1)\n\tsimSemVersion++\n\tif handoff && getg().simtask > 0 && SimHandoff != nil {\n\t\tSimHandoff()\n\t}\n"},
	// Who is woken up inside the language runtime waits for its turn, also
	// where the code that waited (io.Pipe, sync.Cond, ...) has no scheduling points.
	{"runtime/chan.go",
		"\treleaseSudog(mysg)\n\tif closed {\n",
		"\treleaseSudog(mysg)\n\tsimWoken()\n\tif closed {\n"},
	{"runtime/chan.go",
		"\treleaseSudog(mysg)\n\treturn true, success\n",
		"\treleaseSudog(mysg)\n\tsimWoken()\n\treturn true, success\n"},
	{"runtime/select.go",
		"\tselunlock(scases, lockorder)\n\tgoto retc\n\nbufrecv:\n",
		"\tselunlock(scases, lockorder)\n\tsimWoken()\n\tgoto retc\n\nbufrecv:\n"},
	{"runtime/sema.go",
		"\t\tblockevent(s.releasetime-t0, 2)\n\t}\n\treleaseSudog(s)\n}\n\n// notifyListNotifyAll",
		"\t\tblockevent(s.releasetime-t0, 2)\n\t}\n\treleaseSudog(s)\n\tsimWoken()\n}\n\n// notifyListNotifyAll"},
	// A process that is being torn down does not run its deferred functions;
	// the tasks that stand for its goroutines do, and must survive it.
	{"runtime/panic.go",
		"func internal_sync_fatal(s string) {\n",
		"func internal_sync_fatal(s string) {\n\tif simTornDown() {\n\t\treturn\n\t}\n"},
	{"runtime/panic.go",
		"func sync_fatal(s string) {\n",
		"func sync_fatal(s string) {\n\tif simTornDown() {\n\t\treturn\n\t}\n"},
	{"runtime/panic.go",
		"\tpreprintpanics(&p)\n",
		"\tif simTornDown() {\n\t\tsimFinish(getg().simtask)\n\t\tgopark(nil, nil, waitReasonZero, traceBlockForever, 1)\n\t}\n\tpreprintpanics(&p)\n"},
	// Clock.
	{"runtime/time.go",
		"\tt := new(timeTimer)\n\tt.timer.init(nil, nil)\n",
		"\tt := new(timeTimer)\n\tif getg().simtask > 0 {\n\t\tsimTimerSet(t, when, period, f, arg)\n\t\tt.init = true\n\t\treturn t\n\t}\n\tt.timer.init(nil, nil)\n"},
	{"runtime/time.go",
		"func stopTimer(t *timeTimer) bool {\n",
		"func stopTimer(t *timeTimer) bool {\n\tif st := simTimerOf(t); st != nil {\n\t\tp := st.pending\n\t\tst.pending = false\n\t\treturn p\n\t}\n"},
	{"runtime/time.go",
		"func resetTimer(t *timeTimer, when, period int64) bool {\n",
		"func resetTimer(t *timeTimer, when, period int64) bool {\n\tif st := simTimerOf(t); st != nil {\n\t\tp := st.pending\n\t\tst.pending, st.when, st.period = true, when, period\n\t\treturn p\n\t}\n"},
	{"runtime/time.go",
		"func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n",
		"func time_runtimeNow() (sec int64, nsec int32, mono int64) {\n\tif getg().simtask != 0 {\n\t\treturn 1_000_000_000 + simClock/1_000_000_000, int32(simClock % 1_000_000_000), simClock + 1\n\t}\n"},
	{"runtime/time.go",
		"func time_runtimeNano() int64 {\n\tgp := getg()\n",
		"func time_runtimeNano() int64 {\n\tgp := getg()\n\tif gp.simtask != 0 {\n\t\treturn simClock + 1\n\t}\n"},
	{"runtime/time.go",
		"func timeSleep(ns int64) {\n\tif ns <= 0 {\n\t\treturn\n\t}\n",
		"func timeSleep(ns int64) {\n\tif ns <= 0 {\n\t\treturn\n\t}\n\tif getg().simtask != 0 {\n\t\tsimClock += ns\n\t\tif getg().simtask > 0 && SimSleep != nil {\n\t\t\tSimSleep()\n\t\t}\n\t\treturn\n\t}\n"},
	{"runtime/sema.go",
		"func internal_sync_nanotime() int64 {\n",
		"func internal_sync_nanotime() int64 {\n\tif getg().simtask != 0 {\n\t\treturn simClock + 1\n\t}\n"},
	{"time/sleep.go",
		"\tgo arg.(func())()\n",
		"\tgo func() {\n\t\truntime.SimStart()\n\t\targ.(func())()\n\t}()\n"},
	{"time/sleep.go",
		"\t\"internal/godebug\"\n",
		"\t\"internal/godebug\"\n\t\"runtime\"\n"},
	// How many processors there are.
	{"runtime/debug.go",
		"func GOMAXPROCS(n int) int {\n",
		"func GOMAXPROCS(n int) int {\n\tif getg().simtask != 0 {\n\t\treturn SimProcs\n\t}\n"},
	{"runtime/debug.go",
		"func NumCPU() int {\n",
		"func NumCPU() int {\n\tif getg().simtask != 0 {\n\t\treturn SimProcs\n\t}\n"},
	// No preemption by the real clock: only the simulator decides.
	{"runtime/proc.go",
		"const forcePreemptNS = 10 * 1000 * 1000 // 10ms\n",
		"const forcePreemptNS = 1000 * 1000 * 1000 * 1000\n"},
	// Process exit.
	{"os/proc.go",
		"\truntime_beforeExit(code)\n\n\tsyscall.Exit(code)\n",
		"\tif syscall.SimActive() {\n\t\tsyscall.Sim.Exit(code)\n\t\tpanic(\"unreachable\")\n\t}\n\truntime_beforeExit(code)\n\n\tsyscall.Exit(code)\n"},
	{"syscall/flock_linux.go",
		"func FcntlFlock(fd uintptr, cmd int, lk *Flock_t) error {\n",
		"func FcntlFlock(fd uintptr, cmd int, lk *Flock_t) error {\n\tif SimActive() {\n\t\treturn Sim.FcntlFlock(int(fd), cmd, lk)\n\t}\n"},
	{"syscall/exec_unix.go",
		"func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n",
		"func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif SimActive() {\n\t\tSimEscaped = SYS_EXECVE\n\t\treturn 0, EAGAIN\n\t}\n"},
	{"syscall/exec_unix.go",
		"func Exec(argv0 string, argv []string, envv []string) (err error) {\n",
		"func Exec(argv0 string, argv []string, envv []string) (err error) {\n\tif SimActive() {\n\t\tSimEscaped = SYS_EXECVE\n\t\treturn EAGAIN\n\t}\n"},
	// Files named relative to an open directory.
	at("func Unlinkat(dirfd int, path string, flags int) error {", "Unlink(syscall.SimAt(dirfd, path), flags)"),
	at("func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {", "Open(syscall.SimAt(dirfd, path), flags, perm)"),
	at("func Readlinkat(dirfd int, path string, buf []byte) (int, error) {", "Readlink(syscall.SimAt(dirfd, path), buf)"),
	at("func Mkdirat(dirfd int, path string, mode uint32) error {", "Mkdir(syscall.SimAt(dirfd, path), mode)"),
	at("func Fchownat(dirfd int, path string, uid, gid int, flags int) error {", "Chown(syscall.SimAt(dirfd, path), flags)"),
	at("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {", "Rename(syscall.SimAt(olddirfd, oldpath), syscall.SimAt(newdirfd, newpath))"),
	at("func Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flag int) error {", "Link(syscall.SimAt(olddirfd, oldpath), syscall.SimAt(newdirfd, newpath))"),
	at("func Symlinkat(oldpath string, newdirfd int, newpath string) error {", "Symlink(oldpath, syscall.SimAt(newdirfd, newpath))"),
	sim("internal/syscall/unix/at_fstatat.go", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {", "Stat(syscall.SimAt(dirfd, path), stat, flags)"),
	sim("internal/syscall/unix/fcntl_unix.go", "func Fcntl(fd int, cmd int, arg int) (int, error) {", "Fcntl(fd, cmd, arg)"),
	// Signals.
	{"os/signal/signal.go",
		"\t\tpanic(\"os/signal: Notify using nil channel\")\n\t}\n",
		"\t\tpanic(\"os/signal: Notify using nil channel\")\n\t}\n\tif simNotify(c, sig) {\n\t\treturn\n\t}\n"},
	{"os/signal/signal.go",
		"func Stop(c chan<- os.Signal) {\n",
		"func Stop(c chan<- os.Signal) {\n\tif simSignals(1, c, nil) {\n\t\treturn\n\t}\n"},
	{"os/signal/signal.go",
		"func Ignore(sig ...os.Signal) {\n",
		"func Ignore(sig ...os.Signal) {\n\tif simSignals(2, nil, sig) {\n\t\treturn\n\t}\n"},
	{"os/signal/signal.go",
		"func Reset(sig ...os.Signal) {\n",
		"func Reset(sig ...os.Signal) {\n\tif simSignals(3, nil, sig) {\n\t\treturn\n\t}\n"},
	{"os/signal/signal.go",
		"\tsn := signum(sig)\n\treturn sn >= 0 && signalIgnored(sn)\n",
		"\tsn := signum(sig)\n\tif syscall.SimActive() {\n\t\treturn sn >= 0 && syscall.Sim.Ignored(sn)\n\t}\n\treturn sn >= 0 && signalIgnored(sn)\n"},
	{"os/signal/signal.go",
		"\t\"sync\"\n)\n",
		"\t\"sync\"\n\t\"syscall\"\n)\n"},
	// Environment variables.
	{"syscall/env_unix.go",
		"func Getenv(key string) (value string, found bool) {\n",
		"func Getenv(key string) (value string, found bool) {\n\tif SimActive() && SimEnviron != nil {\n\t\treturn SimEnviron(key)\n\t}\n"},
	{"syscall/env_unix.go",
		"func Environ() []string {\n",
		"func Environ() []string {\n\tif SimActive() && SimEnviron != nil {\n\t\treturn simEnvList()\n\t}\n"},
	{"syscall/syscall_linux.go",
		"func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif runtime.SimTask() != 0 {\n\t\treturn simEscape(trap)\n\t}\n"},
	{"syscall/syscall_linux.go",
		"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif runtime.SimTask() != 0 {\n\t\treturn simEscape(trap)\n\t}\n"},
	{"syscall/syscall_linux.go",
		"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
		"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif runtime.SimTask() != 0 {\n\t\treturn simEscape(trap)\n\t}\n"},
}

// sim answers a function by a call of the simulated kernel.
func sim(file, head, call string) stdEdit {
	return stdEdit{file, head + "\n", head + "\n\tif syscall.SimActive() {\n\t\treturn syscall.Sim." + call + "\n\t}\n"}
}

func at(head, call string) stdEdit { return sim("internal/syscall/unix/at.go", head, call) }

const signalSim = `package signal

// Added by the simulation overlay.

import (
	"os"
	"syscall"
)

func simNotify(c chan<- os.Signal, sig []os.Signal) bool { return simSignals(0, c, sig) }

func simSignals(op int, c chan<- os.Signal, sig []os.Signal) bool {
	if !syscall.SimActive() {
		return false
	}
	var l []int
	for _, s := range sig {
		if n := signum(s); n >= 0 {
			l = append(l, n)
		}
	}
	if len(sig) == 0 && op != 1 {
		for n := 1; n < numSig; n++ {
			l = append(l, n)
		}
	}
	syscall.Sim.Notify(op, c, func(n int) {
		select {
		case c <- syscall.Signal(n):
		default:
		}
	}, l)
	return true
}
`

// sysHooks: functions of syscall/zsyscall_linux_amd64.go routed to the
// simulated kernel, with the call to make.
var sysHooks = map[string]string{
	"openat":        "return Sim.Open(simAt(dirfd, path), flags, mode)",
	"readlinkat":    "return Sim.Readlink(simAt(dirfd, path), buf)",
	"unlinkat":      "return Sim.Unlink(simAt(dirfd, path), flags)",
	"utimensat":     "return Sim.Utimes(simAt(dirfd, path), simSpec(times), flag)",
	"futimesat":     "return Sim.Utimes(simAt(dirfd, path), simVal(times), 0)",
	"utimes":        "return Sim.Utimes(path, simVal(times), 0)",
	"fchmodat":      "return Sim.Chmod(simAt(dirfd, path), mode, 0)",
	"fchmodat2":     "return Sim.Chmod(simAt(dirfd, path), mode, flags)",
	"faccessat":     "return Sim.Access(simAt(dirfd, path), mode)",
	"faccessat2":    "return Sim.Access(simAt(dirfd, path), mode)",
	"linkat":        "return Sim.Link(simAt(olddirfd, oldpath), simAt(newdirfd, newpath))",
	"symlinkat":     "return Sim.Symlink(oldpath, simAt(newdirfd, newpath))",
	"Fchownat":      "return Sim.Chown(simAt(dirfd, path), flags)",
	"Fchown":        "return Sim.Fchown(fd)",
	"Fchdir":        "return Sim.Fchdir(fd)",
	"Statfs":        "return Sim.Statfs(path, -1, buf)",
	"Fstatfs":       "return Sim.Statfs(\"\", fd, buf)",
	"pipe2":         "return simPipe(p)",
	"Getxattr":      "return -1, EOPNOTSUPP",
	"Listxattr":     "return 0, nil",
	"Getppid":       "return 1",
	"Gettid":        "return Sim.Getpid()",
	"Getpgid":       "return Sim.Getpid(), nil",
	"Getpriority":   "return 20, nil",
	"Getrusage":     "*rusage = Rusage{}\n\t\treturn nil",
	"Times":         "*tms = Tms{}\n\t\treturn 0, nil",
	"Sysinfo":       "*info = Sysinfo_t{Totalram: 1 << 33, Freeram: 1 << 32, Unit: 1}\n\t\treturn nil",
	"Sync":          "Sim.Sync()\n\t\treturn",
	"SyncFileRange": "return Sim.Fsync(fd)",
	"Kill":          "return Sim.Kill(pid, int(sig))",
	"Tgkill":        "return Sim.Kill(tgid, int(sig))",
	"Nanosleep":     "return Sim.Sleep(int64(time.Sec)*1000000000 + int64(time.Nsec))",
	"mmap":          "return Sim.Mmap(int(length), prot, flags, fd, offset)",
	"munmap":        "return Sim.Munmap(addr)",
	"Madvise":       "return nil",
	"Mprotect":      "return nil",
	"prlimit1":      "return simLimit(resource, old)",
	"wait4":         "return -1, ECHILD",
	"Getcwd":        "return Sim.Getcwd(buf)",
	"Chdir":         "return Sim.Chdir(path)",
	"Close":         "return Sim.Close(fd)",
	"Dup":           "return Sim.Dup(oldfd)",
	"Dup2":          "return Sim.Dup3(oldfd, newfd)",
	"Dup3":          "return Sim.Dup3(oldfd, newfd)",
	"fcntl":         "return Sim.Fcntl(fd, cmd, arg)",
	"Fdatasync":     "return Sim.Fsync(fd)",
	"Fsync":         "return Sim.Fsync(fd)",
	"Flock":         "return Sim.Flock(fd, how)",
	"Fchmod":        "return Sim.Fchmod(fd, mode)",
	"Getdents":      "return Sim.Getdents(fd, buf)",
	"Getpid":        "return Sim.Getpid()",
	"Mkdirat":       "return Sim.Mkdir(simAt(dirfd, path), mode)",
	"read":          "return Sim.Read(fd, p, -1)",
	"pread":         "return Sim.Read(fd, p, offset)",
	"write":         "return Sim.Write(fd, p, -1)",
	"pwrite":        "return Sim.Write(fd, p, offset)",
	"Renameat":      "return Sim.Rename(simAt(olddirfd, oldpath), simAt(newdirfd, newpath))",
	"Fstat":         "return Sim.Fstat(fd, stat)",
	"fstatat":       "return Sim.Stat(simAt(fd, path), stat, flags)",
	"Ftruncate":     "return Sim.Ftruncate(fd, length)",
	"Truncate":      "return Sim.Truncate(path, length)",
	"Seek":          "return Sim.Seek(fd, offset, whence)",
	"Fallocate":     "return ENOSYS",
	"sendfile":      "return 0, ENOSYS",
	"Splice":        "return 0, EINVAL",
	"Uname":         "return simUname(buf)",
	"Getuid":        "return 0",
	"Geteuid":       "return 0",
	"Getgid":        "return 0",
	"Getegid":       "return 0",
	"Umask":         "return 022",
}

const runtimeSim = `package runtime

// Added by the simulation overlay.

const SimMaxTasks = 8192

var (
	simRandState uint64
	simClock     int64
	simNextTask  int32
	simParent    [SimMaxTasks]int32
	simDone      [SimMaxTasks]uint32
	simG         [SimMaxTasks]*g
	SimBlock     func(version uint64) // a semaphore is not available
	SimHandoff   func()               // a mutex is handed to who has waited long for it
	SimSleep     func()
	SimTornDown  func(id int32) bool
	SimWoken     func()               // after having been blocked in the runtime

	// SimProcs is the number of processors simulated code is told of; SimEpoch
	// is the time at which a run begins.
	SimProcs int = 1
	SimEpoch int64

	simSemVersion uint64
	simTimers     []*simTimer
)

// SimSemVersion changes whenever a semaphore is released.
func SimSemVersion() uint64 { return simSemVersion }

func simTornDown() bool {
	id := getg().simtask
	return id > 0 && SimTornDown != nil && SimTornDown(id)
}

func simWoken() {
	if getg().simtask > 0 && SimWoken != nil {
		SimWoken()
	}
}

// SimStart lets a goroutine that was just started wait for its turn.
func SimStart() { simWoken() }

// simTimer is a timer made by a simulated task; times are simulated.
type simTimer struct {
	t            *timeTimer
	when, period int64
	f            func(any, uintptr, int64)
	arg          any
	task         int32
	pending      bool
}

func simTimerSet(t *timeTimer, when, period int64, f func(any, uintptr, int64), arg any) {
	simTimers = append(simTimers, &simTimer{t, when, period, f, arg, getg().simtask, true})
}

func simTimerOf(t *timeTimer) *simTimer {
	for _, st := range simTimers {
		if st.t == t {
			return st
		}
	}
	return nil
}

// SimDue is when the next timer is due, or negative if there is none.
func SimDue() int64 {
	due := int64(-1)
	for _, x := range simTimers {
		if x.pending && (due < 0 || x.when < due) && !(SimTornDown != nil && SimTornDown(x.task)) {
			due = x.when
		}
	}
	return due
}

// SimFire fires the next timer, if it is due; wait: time passes until it is.
func SimFire(wait bool) bool {
	var st *simTimer
	for _, x := range simTimers {
		if x.pending && (st == nil || x.when < st.when) && !(SimTornDown != nil && SimTornDown(x.task)) {
			st = x
		}
	}
	if st == nil || !wait && st.when > simClock {
		return false
	}
	if simClock < st.when {
		simClock = st.when
	}
	if st.period > 0 {
		st.when = simClock + st.period
	} else {
		st.pending = false
	}
	gp := getg()
	me := gp.simtask
	gp.simtask = st.task
	st.f(st.arg, 0, 0)
	gp.simtask = me
	return true
}

func SimTask() int32 { return getg().simtask }

func SimSetTask(id int32) {
	gp := getg()
	gp.simtask = id
	if id > 0 {
		simG[id] = gp
	}
}

// SimBlocked reports whether a task is blocked inside the language runtime
// until another goroutine wakes it up.
func SimBlocked(id int32) bool {
	gp := simG[id]
	if gp == nil || simDone[id] != 0 || readgstatus(gp)&^_Gscan != _Gwaiting {
		return false
	}
	switch gp.waitreason {
	case waitReasonChanReceiveNilChan, waitReasonChanSendNilChan, waitReasonSelect, waitReasonSelectNoCases,
		waitReasonChanReceive, waitReasonChanSend, waitReasonSyncCondWait, waitReasonSyncMutexLock,
		waitReasonSyncRWMutexRLock, waitReasonSyncRWMutexLock, waitReasonSyncWaitGroupWait, waitReasonIOWait:
		return true
	}
	return false
}

// SimAbandon gives up a task that is blocked for ever.
func SimAbandon(id int32) {
	simG[id].simtask = -2
	simDone[id] = 1
}

func SimSeedRand(s uint64) { simRandState = s }

func SimRandState() uint64 { return simRandState }

//go:nosplit
func simRand() uint64 {
	simRandState += 0x9e3779b97f4a7c15
	z := simRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func simSelectRand(n uint32) uint32 {
	if getg().simtask != 0 {
		return uint32(simRand() % uint64(n))
	}
	return cheaprandn(n)
}

// SimReset starts a new simulated run whose first n tasks have ids 1..n.
func SimReset(n int32) {
	simNextTask = n + 1
	for i := range simParent {
		simParent[i] = 0
		simDone[i] = 0
		simG[i] = nil
	}
	simClock = SimEpoch
	simTimers = nil
}

func simSpawn(parent int32, newg *g) int32 {
	id := simNextTask
	if id >= SimMaxTasks {
		throw("simulation: too many tasks")
	}
	simNextTask++
	simParent[id] = parent
	simG[id] = newg
	return id
}

func simFinish(id int32) { simDone[id] = 1 }

func SimTasks() int32 { return simNextTask - 1 }

func SimParent(id int32) int32 { return simParent[id] }

func SimDone(id int32) bool { return simDone[id] != 0 }

func SimClock() int64 { return simClock }

func SimAdvance(ns int64) { simClock += ns }

func SimSetClock(ns int64) { simClock = ns }
`

const syscallSim = `package syscall

// Added by the simulation overlay.

import "runtime"

type SimKernel interface {
	At(dirfd int, path string) string
	Open(path string, flags int, mode uint32) (int, error)
	Readlink(path string, buf []byte) (int, error)
	Unlink(path string, flags int) error
	Chmod(path string, mode uint32, flags int) error
	Chown(path string, flags int) error
	Fchown(fd int) error
	Utimes(path string, ns [2]int64, flags int) error
	Statfs(path string, fd int, st *Statfs_t) error
	Pipe() (r, w int, err error)
	Sync()
	Kill(pid, sig int) error
	Sleep(ns int64) error
	Mmap(length, prot, flags, fd int, off int64) (uintptr, error)
	Munmap(addr uintptr) error
	Notify(op int, key any, deliver func(sig int), sigs []int)
	Ignored(sig int) bool
	Limit() uint64
	Fchdir(fd int) error
	Access(path string, mode uint32) error
	Link(o, n string) error
	Symlink(o, n string) error
	Getcwd(buf []byte) (int, error)
	Chdir(path string) error
	Close(fd int) error
	Dup(fd int) (int, error)
	Dup3(o, n int) error
	Fcntl(fd, cmd, arg int) (int, error)
	Fsync(fd int) error
	Flock(fd, how int) error
	FcntlFlock(fd, cmd int, lk *Flock_t) error
	Fchmod(fd int, mode uint32) error
	Getdents(fd int, buf []byte) (int, error)
	Getpid() int
	Mkdir(path string, mode uint32) error
	Read(fd int, p []byte, off int64) (int, error)
	Write(fd int, p []byte, off int64) (int, error)
	Rename(o, n string) error
	Fstat(fd int, st *Stat_t) error
	Stat(path string, st *Stat_t, flags int) error
	Ftruncate(fd int, n int64) error
	Truncate(path string, n int64) error
	Seek(fd int, off int64, whence int) (int64, error)
	Exit(code int)
}

var Sim SimKernel

// What a process is told about its surroundings.
var (
	SimEnviron  func(key string) (string, bool)
	SimHostname = "host"
)

func simEnvList() (l []string) {
	for _, k := range []string{"HOME", "LANG", "PATH", "PWD", "TMPDIR", "USER"} {
		if v, ok := SimEnviron(k); ok {
			l = append(l, k+"="+v)
		}
	}
	return l
}

func simUname(u *Utsname) error {
	*u = Utsname{}
	for i := 0; i < len(SimHostname) && i < 64; i++ {
		u.Nodename[i] = int8(SimHostname[i])
	}
	for i, c := range []byte("Linux") {
		u.Sysname[i] = int8(c)
	}
	return nil
}

const (
	SimNow  = -1 << 62 // Utimes: the present
	SimOmit = SimNow + 1
)

func simSpec(t *[2]Timespec) (ns [2]int64) {
	for i := range ns {
		switch {
		case t == nil || t[i].Nsec == 1<<30-1:
			ns[i] = SimNow
		case t[i].Nsec == 1<<30-2:
			ns[i] = SimOmit
		default:
			ns[i] = t[i].Nano()
		}
	}
	return
}

func simVal(t *[2]Timeval) (ns [2]int64) {
	if t == nil {
		return [2]int64{SimNow, SimNow}
	}
	return [2]int64{t[0].Nano(), t[1].Nano()}
}

func SimAt(dirfd int, path string) string { return simAt(dirfd, path) }

// simAt resolves a path relative to an open directory.
func simAt(dirfd int, path string) string {
	if dirfd == _AT_FDCWD || len(path) > 0 && path[0] == '/' {
		return path
	}
	return Sim.At(dirfd, path)
}

func simPipe(p *[2]_C_int) error {
	r, w, err := Sim.Pipe()
	p[0], p[1] = _C_int(r), _C_int(w)
	return err
}

func simLimit(resource int, old *Rlimit) error {
	if old != nil {
		*old = Rlimit{1 << 30, 1 << 30}
		if resource == RLIMIT_NOFILE {
			n := Sim.Limit()
			*old = Rlimit{n, n}
		}
	}
	return nil
}

func SimActive() bool { return runtime.SimTask() != 0 && Sim != nil }

// SimEscaped records a system call made by a simulated task that no seam covers.
var SimEscaped uintptr

//go:nosplit
func simEscape(trap uintptr) (r1, r2 uintptr, err Errno) {
	switch trap {
	case SYS_PRLIMIT64, SYS_FADVISE64, SYS_SCHED_YIELD:
	case 326, 275, 276, 40, 318, 332, 63: // copy_file_range, splice, tee, sendfile, getrandom, statx, uname
	case 434, 424, 247, 437, 316: // pidfd_open, pidfd_send_signal, waitid, openat2, renameat2
	case SYS_IOCTL:
		return ^uintptr(0), 0, ENOTTY
	default:
		SimEscaped = trap
	}
	return ^uintptr(0), 0, ENOSYS
}
`

var funcRE = regexp.MustCompile(`(?m)^func ([A-Za-z0-9_]+)\(.*\{$`)

func stdOverlay(goroot, out string, repl map[string]string) error {
	src := filepath.Join(goroot, "src")
	edited := map[string]string{}
	load := func(f string) (string, error) {
		if s, ok := edited[f]; ok {
			return s, nil
		}
		b, err := os.ReadFile(filepath.Join(src, f))
		return string(b), err
	}
	for _, e := range stdEdits {
		s, err := load(e.file)
		if err != nil {
			return err
		}
		if strings.Count(s, e.old) != 1 {
			return fmt.Errorf("std overlay: %s: needle found %d times: %q", e.file, strings.Count(s, e.old), e.old)
		}
		edited[e.file] = strings.Replace(s, e.old, e.new, 1)
	}
	z := "syscall/zsyscall_linux_amd64.go"
	s, err := load(z)
	if err != nil {
		return err
	}
	done := map[string]bool{}
	s = funcRE.ReplaceAllStringFunc(s, func(line string) string {
		name := funcRE.FindStringSubmatch(line)[1]
		call, ok := sysHooks[name]
		if !ok {
			return line
		}
		done[name] = true
		return line + "\n\tif SimActive() {\n\t\t" + call + "\n\t}"
	})
	for name := range sysHooks {
		if !done[name] {
			return fmt.Errorf("std overlay: no function %s in %s", name, z)
		}
	}
	edited[z] = s
	edited["runtime/zz_sim.go"] = runtimeSim
	edited["syscall/zz_sim.go"] = syscallSim
	edited["os/signal/zz_sim.go"] = signalSim
	for f, s := range edited {
		dst := filepath.Join(out, "std", f)
		if err := write(dst, s); err != nil {
			return err
		}
		repl[filepath.Join(src, f)] = dst
	}
	return nil
}

func write(dst, s string) error {
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	return os.WriteFile(dst, []byte(s), 0o644)
}
