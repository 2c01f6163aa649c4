// stepper IMAGE LIMIT SEED: runs a position-independent x86_64 program without an
// operating system of its own one instruction at a time and writes
// (rip, rsp) of every instruction it executes to stdout.
// The program can reach nothing: seccomp lets it do nothing but exit.
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define BASE 0x200000000000ull
#define STACK 0x210000000000ull
#define STACK_SIZE (16ull << 20)

static void die(const char *m) { fprintf(stderr, "stepper: %s: %s\n", m, strerror(errno)); exit(3); }

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    int fd = open(argv[1], O_RDONLY);
    if (fd < 0) die("open");
    off_t n = lseek(fd, 0, SEEK_END);
    unsigned char *f = mmap(0, n, PROT_READ, MAP_PRIVATE, fd, 0);
    if (f == MAP_FAILED) die("mmap");
    Elf64_Ehdr *e = (void *)f;
    uint64_t base = e->e_type == ET_DYN ? BASE : 0;
    long limit = atol(argv[2]);
    uint32_t seed = strtoul(argv[3], 0, 0);
    pid_t p = fork();
    if (p < 0) die("fork");
    if (!p) {
        Elf64_Phdr *ph = (void *)(f + e->e_phoff);
        uint64_t lo = ~0ull, hi = 0;
        for (int i = 0; i < e->e_phnum; i++)
            if (ph[i].p_type == PT_LOAD) {
                if (ph[i].p_vaddr < lo) lo = ph[i].p_vaddr;
                if (ph[i].p_vaddr + ph[i].p_memsz > hi) hi = ph[i].p_vaddr + ph[i].p_memsz;
            }
        lo &= ~4095ull;
        hi = (hi + 4095) & ~4095ull;
        if (mmap((void *)(base + lo), hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) die("map image");
        for (int i = 0; i < e->e_phnum; i++)
            if (ph[i].p_type == PT_LOAD) memcpy((void *)(base + ph[i].p_vaddr), f + ph[i].p_offset, ph[i].p_filesz);
        for (int i = 0; i < e->e_phnum; i++)
            if (ph[i].p_type == PT_DYNAMIC) {
                uint64_t rela = 0, sz = 0;
                for (Elf64_Dyn *d = (void *)(f + ph[i].p_offset); d->d_tag; d++) {
                    if (d->d_tag == DT_RELA) rela = d->d_un.d_ptr;
                    if (d->d_tag == DT_RELASZ) sz = d->d_un.d_val;
                }
                for (uint64_t k = 0; k < sz / sizeof(Elf64_Rela); k++) {
                    Elf64_Rela *r = (Elf64_Rela *)(base + rela) + k;
                    if (ELF64_R_TYPE(r->r_info) == R_X86_64_RELATIVE) *(uint64_t *)(base + r->r_offset) = base + r->r_addend;
                }
            }
        Elf64_Shdr *sh = (void *)(f + e->e_shoff);
        for (int i = 0; i < e->e_shnum; i++)   // the input of this run
            if (sh[i].sh_type == SHT_SYMTAB) {
                Elf64_Sym *s = (void *)(f + sh[i].sh_offset);
                const char *st = (char *)f + sh[sh[i].sh_link].sh_offset;
                for (uint64_t k = 0; k < sh[i].sh_size / sizeof *s; k++)
                    if (!strcmp(st + s[k].st_name, "INPUT_SEED")) *(uint32_t *)(base + s[k].st_value) = seed;
            }
        if (mmap((void *)STACK, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) die("map stack");
        close(1);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) die("traceme");
        raise(SIGSTOP);
        struct sock_filter flt[] = {
            BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
            BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit, 0, 1),
            BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
            BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS),
        };
        struct sock_fprog prog = {4, flt};
        if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) die("seccomp");
        uint64_t entry = base + e->e_entry;
        __asm__ volatile("mov %0, %%rsp\n xor %%ebp, %%ebp\n jmp *%1" ::"r"(STACK + STACK_SIZE - 64), "r"(entry) : "memory");
        __builtin_unreachable();
    }
    int st;
    if (waitpid(p, &st, 0) != p) die("wait");
    if (!WIFSTOPPED(st)) { fprintf(stderr, "stepper: the child did not stop\n"); return 3; }
    ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_EXITKILL);
    uint64_t lo = base + 1, hi = base + (1ull << 32);
    static uint64_t buf[1 << 16];
    unsigned k = 0;
    long steps = 0, outside = 0;
    const char *why = "limit";
    while (steps < limit) {
        if (ptrace(PTRACE_SINGLESTEP, p, 0, 0) || waitpid(p, &st, 0) != p) die("step");
        if (WIFEXITED(st)) { why = "endless loop"; break; }
        if (WIFSIGNALED(st)) { why = "killed"; break; }
        int s = WSTOPSIG(st);
        struct user_regs_struct r;
        if (ptrace(PTRACE_GETREGS, p, 0, &r)) die("regs");
        if (r.rip >= lo && r.rip < hi) {
            steps++;
            buf[k++] = r.rip - base;
            buf[k++] = r.rsp;
            if (k == sizeof buf / sizeof *buf) { fwrite(buf, 8, k, stdout); k = 0; }
        } else if (steps) { why = "left the image"; break; }
        else if (++outside > 200000) { why = "never started"; break; }
        if (s != SIGTRAP) { why = s == SIGILL ? "fault: udf" : "fault"; break; }
    }
    fwrite(buf, 8, k, stdout);
    fflush(stdout);
    fprintf(stderr, "%s\n", why);
    kill(p, SIGKILL);
    waitpid(p, &st, 0);
    return 0;
}
