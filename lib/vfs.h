/* vfs.h: an in-memory file system behind the C library's file calls.

   The harness names the intercepted calls with "//@ libc vfs"; the symbolic
   engine then runs these bodies in place of libc's, and the native build
   redirects the same calls of the sources under test (and only those).

   Durability: a crash image may be taken at one chosen mutating call.  A
   file's content then is what had been synced plus any prefix of what had
   been written after; renames, unlinks and links are atomic and ordered. */
#ifndef VFS_H
#define VFS_H
#include "vh.h"
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <utime.h>
#include <sys/stat.h>
#undef fwrite_unlocked
#undef fread_unlocked
#undef putc
#undef getc
#if VH_NATIVE
#define VW(f) vhw_##f
#else
#define VW(f) f
#endif
#ifndef VFS_N
#define VFS_N 12      // names
#endif
#ifndef VFS_NF
#define VFS_NF 8      // open files
#endif
#ifndef VFS_PATH
#define VFS_PATH 96
#endif
typedef struct { char *data; size_t len, cap, synced; int nlink; } vino_t;
typedef struct { char path[VFS_PATH]; vino_t *ino; bool dir; bool used; } vent_t;
typedef struct { bool used; vino_t *ino; size_t pos; bool eof, append, rd, wr; vent_t *dir; size_t diri; struct dirent de; } vfile_t;
static vent_t vfs_ents[VFS_N];
static vfile_t vfs_files[VFS_NF];
static unsigned vfs_ops;              // mutating calls so far
static unsigned vfs_crash_at;         // take the crash image before this one
static bool vfs_crashed;
static bool vfs_coarse;               // tear writes at quarters only
static bool vfs_all_or_none;          // an unsynced tail is kept or lost as a whole
static vent_t vfs_image[VFS_N];
static unsigned vfs_fail_at;          // this call fails
static int vfs_fail_errno;
static unsigned vfs_rds, vfs_rfail_at;  // this read fails with EIO
static size_t vfs_rchunk;             // if set, reads give at most so much
static unsigned vfs_open_n;           // open files, to spot leaks

static vent_t *vfs_find(const char *p){
    for(int i = 0; i < VFS_N; i++)
        if(vfs_ents[i].used && strcmp(vfs_ents[i].path, p) == 0) return &vfs_ents[i];
    return NULL;
}
static vent_t *vfs_new(const char *p){
    for(int i = 0; i < VFS_N; i++) if(!vfs_ents[i].used){
        size_t n = strlen(p);
        if(n >= VFS_PATH) abort();
        memcpy(vfs_ents[i].path, p, n + 1);
        vfs_ents[i].used = true; vfs_ents[i].dir = false; vfs_ents[i].ino = NULL;
        return &vfs_ents[i];
    }
    abort();
}
static vino_t *vfs_ino(void){
    vino_t *i = malloc(sizeof(*i)); *i = (vino_t){ .nlink = 1 };
    return i;
}
static void vfs_unref(vino_t *i){
    if(i && --i->nlink == 0){ free(i->data); free(i); }
}
static void vfs_put(vino_t *i, size_t pos, const char *d, size_t n){
    if(pos + n > i->cap){
        size_t c = i->cap ? i->cap : 64;
        while(c < pos + n) c *= 2;
        char *nd = malloc(c);
        if(i->len) memcpy(nd, i->data, i->len);
        free(i->data); i->data = nd; i->cap = c;
    }
    memcpy(i->data + pos, d, n);
    if(pos + n > i->len) i->len = pos + n;
}
// harness helpers
static void vfs_mkfile(const char *p, const char *d, size_t n){
    vent_t *e = vfs_new(p); e->ino = vfs_ino(); if(n) vfs_put(e->ino, 0, d, n);
    e->ino->synced = n;
}
static void vfs_mkdir(const char *p){ vfs_new(p)->dir = true; }
static void vfs_reset(vent_t *ents){
    for(int i = 0; i < VFS_N; i++) if(ents[i].used){ vfs_unref(ents[i].ino); ents[i].used = false; }
}
static void vfs_snap(void){
    for(int i = 0; i < VFS_N; i++){
        vfs_image[i] = vfs_ents[i];
        if(!vfs_ents[i].used || !vfs_ents[i].ino) continue;
        vino_t *o = vfs_ents[i].ino, *c = vfs_ino();
        size_t n = o->synced;
        size_t un = o->len - o->synced;
        if(un && vfs_all_or_none){ if(nd_pick(1)) n = o->len;
        }else if(un > 4 && vfs_coarse){
            static const unsigned char part[5] = { 0, 1, 2, 3, 4 };
            n += un * part[nd_pick(4)] / 4;
        }else if(un) n += nd_pick(o->len - o->synced > 255 ? 255 : (unsigned)(o->len - o->synced));
        if(n) vfs_put(c, 0, o->data, n);
        c->synced = n;
        vfs_image[i].ino = c;
    }
    vfs_crashed = true;
}
// a mutating call: the crash image is what the disk held just before it
static int vfs_mut(void){
    ++vfs_ops;
    if(vfs_crash_at && vfs_ops == vfs_crash_at) vfs_snap();
    if(vfs_fail_at && vfs_ops == vfs_fail_at){ errno = vfs_fail_errno; return -1; }
    return 0;
}
// make the crash image the disk, as after a restart
static void vfs_restart(void){
    vfs_reset(vfs_ents);
    for(int i = 0; i < VFS_N; i++){ vfs_ents[i] = vfs_image[i]; vfs_image[i].used = false; }
    for(int i = 0; i < VFS_NF; i++){ if(vfs_files[i].used && vfs_files[i].ino) vfs_unref(vfs_files[i].ino); vfs_files[i].used = false; }
    vfs_crash_at = 0; vfs_open_n = 0;
}

static bool vfs_parent_ok(const char *p){
    const char *s = strrchr(p, '/');
    if(!s || s == p) return true;
    char d[VFS_PATH]; size_t n = (size_t)(s - p);
    memcpy(d, p, n); d[n] = 0;
    vent_t *e = vfs_find(d);
    return e && e->dir;
}
static vfile_t *vfs_open(const char *p, bool rd, bool wr, bool creat, bool trunc, bool excl, bool append){
    vent_t *e = vfs_find(p);
    if(e && e->dir && wr){ errno = EISDIR; return NULL; }
    if(e && excl){ errno = EEXIST; return NULL; }
    if(!e){
        if(!creat || !vfs_parent_ok(p)){ errno = ENOENT; return NULL; }
        if(vfs_mut()) return NULL;
        e = vfs_new(p); e->ino = vfs_ino();
    }else if(trunc && !e->dir){
        if(vfs_mut()) return NULL;
        e->ino->len = 0; e->ino->synced = 0;
    }
    for(int i = 0; i < VFS_NF; i++) if(!vfs_files[i].used){
        vfs_files[i] = (vfile_t){ .used = true, .ino = e->ino, .append = append, .rd = rd, .wr = wr, .dir = e->dir ? e : NULL };
        if(e->ino) e->ino->nlink++;
        vfs_open_n++;
        return &vfs_files[i];
    }
    abort();
}
FILE *VW(fopen)(const char *p, const char *m){
    bool w = m[0] == 'w', a = m[0] == 'a', plus = m[1] == '+';
    return (FILE*)vfs_open(p, m[0] == 'r' || plus, w || a || plus, w || a, w, false, a);
}
int VW(open)(const char *p, int flags, ...){
    int acc = flags & O_ACCMODE;
    vfile_t *f = vfs_open(p, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, (flags & O_EXCL) && (flags & O_CREAT), flags & O_APPEND);
    return f ? (int)(f - vfs_files) + 100 : -1;
}
static vfile_t *vfs_f(FILE *f){
    vfile_t *v = (vfile_t*)f; if(f == stderr || f == stdout) return v;
    VH_CHECK(v && v->used, "only open files are used"); return v;
}
static vfile_t *vfs_fd(int fd){
    if(fd == 1 || fd == 2) return (vfile_t*)(fd == 1 ? stdout : stderr);
    if(fd < 100 || fd >= 100 + VFS_NF || !vfs_files[fd - 100].used){ VH_CHECK(0, "only open files are used"); return NULL; }
    return &vfs_files[fd - 100];
}
void VW(flockfile)(FILE *f){ vfs_f(f); }
void VW(funlockfile)(FILE *f){ vfs_f(f); }
static int vfs_close(vfile_t *f){
    VH_CHECK(f->used, "a file is closed once");
    f->used = false; vfs_open_n--;
    vfs_unref(f->ino);
    return 0;
}
// at the end of a harness that looks for leaks
static void vfs_end(void){ vfs_reset(vfs_ents); if(vfs_crashed) vfs_reset(vfs_image); }
int VW(fclose)(FILE *f){ return vfs_close(vfs_f(f)); }
int VW(close)(int fd){ return vfs_close(vfs_fd(fd)); }
int VW(fileno)(FILE *f){ if(f == stdout || f == stderr) return f == stdout ? 1 : 2; return (int)(vfs_f(f) - vfs_files) + 100; }
int VW(feof)(FILE *f){ return vfs_f(f)->eof; }

int VW(ferror)(FILE *f){ vfs_f(f); return 0; }
int VW(fflush)(FILE *f){ vfs_f(f); return 0; }
int VW(fsync)(int fd){
    if(fd == 1 || fd == 2) return 0;
    vfile_t *f = vfs_fd(fd);
    if(vfs_mut()) return -1;
    if(f->ino) f->ino->synced = f->ino->len;
    return 0;
}
static int vfs_write(vfile_t *f, const char *d, size_t n){
    if((FILE*)f == stderr || (FILE*)f == stdout) return 0;    // log messages
    if(!f->wr){ errno = EBADF; return -1; }
    if(vfs_mut()) return -1;
    size_t pos = f->append ? f->ino->len : f->pos;
    vfs_put(f->ino, pos, d, n);
    f->pos = pos + n;
    return 0;
}
size_t VW(fwrite)(const void *d, size_t s, size_t n, FILE *f){ return vfs_write(vfs_f(f), d, s*n) ? 0 : n; }
size_t VW(fwrite_unlocked)(const void *d, size_t s, size_t n, FILE *f){ return vfs_write(vfs_f(f), d, s*n) ? 0 : n; }
int VW(fputc)(int c, FILE *f){ char x = (char)c; return vfs_write(vfs_f(f), &x, 1) ? EOF : (unsigned char)c; }
int VW(fputc_unlocked)(int c, FILE *f){ char x = (char)c; return vfs_write(vfs_f(f), &x, 1) ? EOF : (unsigned char)c; }
int VW(putc_unlocked)(int c, FILE *f){ char x = (char)c; return vfs_write(vfs_f(f), &x, 1) ? EOF : (unsigned char)c; }
int VW(putc)(int c, FILE *f){ char x = (char)c; return vfs_write(vfs_f(f), &x, 1) ? EOF : (unsigned char)c; }
int VW(fputs)(const char *s, FILE *f){ return vfs_write(vfs_f(f), s, strlen(s)) ? EOF : 1; }
ssize_t VW(write)(int fd, const void *d, size_t n){ return vfs_write(vfs_fd(fd), d, n) ? -1 : (ssize_t)n; }
static size_t vfs_read(vfile_t *f, char *d, size_t n){
    size_t left = f->pos < f->ino->len ? f->ino->len - f->pos : 0;
    if(n > left){ n = left; f->eof = true; }
    if(n) memcpy(d, f->ino->data + f->pos, n);
    f->pos += n;
    return n;
}
ssize_t VW(read)(int fd, void *d, size_t n){
    if(vfs_rfail_at && ++vfs_rds == vfs_rfail_at){ errno = EIO; return -1; }
    if(vfs_rchunk && n > vfs_rchunk) n = vfs_rchunk;
    return (ssize_t)vfs_read(vfs_fd(fd), d, n);
}
size_t VW(fread)(void *d, size_t s, size_t n, FILE *f){ return s ? vfs_read(vfs_f(f), d, s*n) / s : 0; }
char *VW(fgets)(char *d, int n, FILE *ff){
    vfile_t *f = vfs_f(ff); vino_t *o = f->ino;
    int i = 0;
    while(i < n - 1){
        if(f->pos >= o->len){ f->eof = true; break; }
        char c = o->data[f->pos++];
        d[i++] = c;
        if(c == '\n') break;
    }
    if(!i) return NULL;
    d[i] = 0;
    return d;
}
int VW(fgetc)(FILE *f){ char c; return vfs_read(vfs_f(f), &c, 1) ? (unsigned char)c : EOF; }
int VW(getc)(FILE *f){ char c; return vfs_read(vfs_f(f), &c, 1) ? (unsigned char)c : EOF; }
int VW(fseek)(FILE *ff, long off, int whence){
    vfile_t *f = vfs_f(ff);
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)f->pos : (long)f->ino->len;
    if(base + off < 0){ errno = EINVAL; return -1; }
    f->pos = (size_t)(base + off); f->eof = false;
    return 0;
}
off_t VW(lseek)(int fd, off_t off, int whence){
    vfile_t *f = vfs_fd(fd);
    return VW(fseek)((FILE*)f, off, whence) ? -1 : (off_t)f->pos;
}
int VW(rename)(const char *a, const char *b){
    vent_t *x = vfs_find(a), *y = vfs_find(b);
    if(!x || !vfs_parent_ok(b)){ errno = ENOENT; return -1; }
    if(vfs_mut()) return -1;
    if(y){ vfs_unref(y->ino); y->used = false; }
    size_t n = strlen(a), m = strlen(b);
    for(int i = 0; i < VFS_N; i++){
        vent_t *e = &vfs_ents[i];
        if(!e->used || strncmp(e->path, a, n) || (e->path[n] && e->path[n] != '/')) continue;
        char t[VFS_PATH]; size_t k = strlen(e->path + n);
        if(m + k >= VFS_PATH) abort();
        memcpy(t, b, m); memcpy(t + m, e->path + n, k + 1);
        memcpy(e->path, t, m + k + 1);
    }
    return 0;
}
static bool vfs_empty(const char *p){
    size_t n = strlen(p);
    for(int i = 0; i < VFS_N; i++)
        if(vfs_ents[i].used && !strncmp(vfs_ents[i].path, p, n) && vfs_ents[i].path[n] == '/') return false;
    return true;
}
static int vfs_rm(const char *p, int what){   // 1 file, 2 dir, 3 both
    vent_t *e = vfs_find(p);
    if(!e){ errno = ENOENT; return -1; }
    if(e->dir && !(what & 2)){ errno = EISDIR; return -1; }
    if(!e->dir && !(what & 1)){ errno = ENOTDIR; return -1; }
    if(e->dir && !vfs_empty(p)){ errno = ENOTEMPTY; return -1; }
    if(vfs_mut()) return -1;
    vfs_unref(e->ino); e->used = false;
    return 0;
}
int VW(unlink)(const char *p){ return vfs_rm(p, 1); }
int VW(rmdir)(const char *p){ return vfs_rm(p, 2); }
int VW(remove)(const char *p){ return vfs_rm(p, 3); }
int VW(link)(const char *a, const char *b){
    vent_t *x = vfs_find(a);
    if(!x || !vfs_parent_ok(b)){ errno = ENOENT; return -1; }
    if(vfs_find(b)){ errno = EEXIST; return -1; }
    if(vfs_mut()) return -1;
    vent_t *y = vfs_new(b); y->ino = x->ino; y->ino->nlink++;
    return 0;
}
int VW(mkdir)(const char *p, mode_t m){
    (void)m;
    if(vfs_find(p)){ errno = EEXIST; return -1; }
    if(!vfs_parent_ok(p)){ errno = ENOENT; return -1; }
    if(vfs_mut()) return -1;
    vfs_new(p)->dir = true;
    return 0;
}
static int vfs_st(vent_t *e, struct stat *s){
    memset(s, 0, sizeof(*s));
    s->st_mode = e->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    s->st_size = e->ino ? (off_t)e->ino->len : 0;
    s->st_nlink = 1;
    return 0;
}
int VW(stat)(const char *p, struct stat *s){
    vent_t *e = vfs_find(p); if(!e){ errno = ENOENT; return -1; }
    return vfs_st(e, s);
}
int VW(lstat)(const char *p, struct stat *s){ return VW(stat)(p, s); }
int VW(fstat)(int fd, struct stat *s){
    vfile_t *f = vfs_fd(fd); memset(s, 0, sizeof(*s));
    s->st_mode = S_IFREG | 0644; s->st_size = f->ino ? (off_t)f->ino->len : 0; return 0;
}
int VW(access)(const char *p, int m){ (void)m; if(vfs_find(p)) return 0; errno = ENOENT; return -1; }
int VW(utime)(const char *p, const struct utimbuf *t){ (void)t; return VW(access)(p, 0); }
int VW(chmod)(const char *p, mode_t m){ (void)m; return VW(access)(p, 0); }
DIR *VW(opendir)(const char *p){
    vent_t *e = vfs_find(p);
    if(!e){ errno = ENOENT; return NULL; }
    if(!e->dir){ errno = ENOTDIR; return NULL; }
    return (DIR*)vfs_open(p, true, false, false, false, false, false);
}
struct dirent *VW(readdir)(DIR *d){
    vfile_t *f = (vfile_t*)d; VH_CHECK(f && f->used, "only open files are used");
    size_t n = strlen(f->dir->path);
    while(f->diri < VFS_N){
        vent_t *e = &vfs_ents[f->diri++];
        if(!e->used || strncmp(e->path, f->dir->path, n) || e->path[n] != '/' || strchr(e->path + n + 1, '/')) continue;
        strcpy(f->de.d_name, e->path + n + 1);
        f->de.d_type = e->dir ? DT_DIR : DT_REG;
        return &f->de;
    }
    return NULL;
}
int VW(closedir)(DIR *d){ return vfs_close((vfile_t*)d); }
#endif
