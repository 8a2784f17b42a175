// Thread simulation: lines "T<k> command" run in parallel, the ones before and after them in one thread.
// (included by main.rs; the scheduler is cpp/thread_rt.c)
extern "C" {
    fn thr_in_lib(enter: i32) -> i32;
    fn thr_arena();
    fn thr_schedule(mode: i32, seed: u64, pmem: u64, psync: u64, changes: i32, horizon: u64);
    fn thr_plan(p: *const u64, n: i64);
    fn thr_parallel(n: i32, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, args: *const *mut libc::c_void);
    fn thr_report();
    fn thr_stats(o: *mut u64);
}

fn thread_setup() {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) == 0 {
            let want: usize = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
            let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &all)).collect();
            libc::CPU_SET(cpus[want % cpus.len()], &mut one);
            libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
        }
    }
}

struct Task {
    int: *mut Interp,
    cmds: Vec<(usize, String)>,
    out: *mut Vec<String>,
}

extern "C" fn thread_body(p: *mut libc::c_void) -> *mut libc::c_void {
    let t = unsafe { &mut *(p as *mut Task) };
    for (i, c) in &t.cmds {
        let h = hard();
        let r = unsafe { &mut *t.int }.run(c);
        unsafe { (&mut *t.out)[*i] = format!("H{} {}", h, r) };
    }
    std::ptr::null_mut()
}

fn sequential(int: &mut Interp, lines: &[String], i: &mut usize) {
    while *i < lines.len() && !(lines[*i].starts_with('T') && lines[*i].len() > 1) {
        let l = &lines[*i];
        *i += 1;
        let t: Vec<&str> = l.split(' ').collect();
        match t[0] {
            "Z" => unsafe { thr_schedule(num(t[1]) as i32, num(t[2]), num(t[3]), num(t[4]), num(t[5]) as i32, num(t[6])) },
            "PLAN" => {
                let mut p = vec![];
                for x in &t[1..] {
                    let (a, b) = x.split_once(':').unwrap();
                    p.push(num(a));
                    p.push(num(b));
                }
                unsafe { thr_plan(p.as_ptr(), p.len() as i64 / 2) }
            }
            _ => {
                let r = int.run(l);
                put(&format!("H{} {}\n", hard(), r));
                continue;
            }
        }
        put("H0 ok\n");
    }
}

fn run_lines(lines: &[String]) {
    unsafe { thr_arena() };
    let mut int = Interp::new();
    let mut out = vec![String::new(); lines.len()];
    let mut i = 0;
    sequential(&mut int, lines, &mut i);
    if i < lines.len() {
        let from = i;
        let mut tasks: Vec<Task> = (0..6).map(|_| Task { int: &mut int, cmds: vec![], out: &mut out }).collect();
        let mut n = 0;
        while i < lines.len() && lines[i].starts_with('T') && lines[i].len() > 1 {
            let k = (lines[i].as_bytes()[1] - b'0') as usize;
            n = n.max(k + 1);
            tasks[k].cmds.push((i, lines[i][3..].to_string()));
            i += 1;
        }
        let args: Vec<*mut libc::c_void> = tasks.iter_mut().map(|t| t as *mut Task as *mut libc::c_void).collect();
        put("@parallel\n");
        unsafe { thr_parallel(n as i32, thread_body, args.as_ptr()) };
        put("@joined\n");
        let mut st = [0u64; 6];
        unsafe {
            thr_report();
            thr_stats(st.as_mut_ptr());
        }
        put(&format!("@thr {} {} {}\n", st[2], st[3], st[4]));
        for o in &out[from..i] {
            put(&format!("{}\n", o));
        }
    }
    sequential(&mut int, lines, &mut i);
    put("@destroy\n");
    std::mem::drop(int);
}
