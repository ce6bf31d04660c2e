#include <fnmatch.h>
// simrun --- deterministic simulation of one Linux world for static x86-64 guests.
//
// The guest programs are the real ELF executables built from /repo (bin/mes, and small
// programs linked with the Mes C Library).  They run natively inside this process; every
// system call they make is caught (Syscall User Dispatch) and answered by the simulated
// kernel below.  Nothing a guest does reaches the real kernel.  Memory, clock, processes,
// scheduling, files, pipes, signals and all faults are decided by one seed, or, in replay
// mode, by an explicit list of decisions.
//
// usage: simrun SCENARIO-FILE   (result on stdout)
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <functional>
#include <csetjmp>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <elf.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/time.h>
#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif
using namespace std;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

// ---------------------------------------------------------------- utilities
static u64 mix(u64 x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31);}
static u64 hstr(const string&s){ u64 h=1469598103934665603ULL; for(unsigned char c:s){h^=c;h*=1099511628211ULL;} return h;}
static string undec(const string&s){ string r; for(size_t i=0;i<s.size();i++){ if(s[i]=='%'&&i+2<s.size()){ r+=(char)strtol(s.substr(i+1,2).c_str(),0,16); i+=2;} else r+=s[i]; } return r;}
static string enc(const string&s){ static const char*hx="0123456789abcdef"; string r; r.reserve(s.size()+16); for(unsigned char c:s){ if(c<=32||c>=127||c=='%'){ r+='%'; r+=hx[c>>4]; r+=hx[c&15]; } else r+=(char)c; } return r;}
static vector<string> split(const string&s,char d=' '){ vector<string> v; string c; for(char x:s){ if(x==d){ if(c.size()) v.push_back(c); c.clear(); } else c+=x;} if(c.size()) v.push_back(c); return v;}
[[noreturn]] static void die(const string&m){ fprintf(stderr,"simrun: %s\n",m.c_str()); _exit(3);}

// ---------------------------------------------------------------- scenario
static u64 g_seed=1; static bool g_listmode=false, g_trace=false; static u64 g_maxsys=20000000; static int g_cpulimit=20;
struct Rule { i64 notnr=-1; string kind; u64 ppm=0; vector<i64> vals; string path; int fd=-1; i64 pid=-1; i64 max=-1; u64 after=0; u64 until=~0ULL; i64 nth=-1; i64 nr=-1; i64 hits=0; i64 seen=0; string exe; };
static vector<Rule> g_rules;
static map<pair<u64,string>,i64> g_declist;   // replay: (seq,kind) -> value
struct Dec { u64 seq; string kind; i64 val; };
static vector<Dec> g_decs;
static map<string,u64> g_fired;
static u64 g_seq=0; static u64 g_hash=0x1234567; static u64 g_pathhash=99; static vector<string> g_tracev;
static u64 g_switches=0;
static void hashin(u64 v){ g_hash=mix(g_hash^v); }

// ---------------------------------------------------------------- VFS
enum { T_REG, T_DIR, T_LNK, T_FIFO, T_CHR };
struct Pipe { deque<u8> buf; int readers=0, writers=0; size_t cap=65536; };
struct Chunk { string data; i64 wait_out=-1; u64 delay=0; bool eof=false; bool hold=false; i64 err=0; };
struct Stream { // scripted input
  vector<Chunk> ch; size_t idx=0; size_t off=0; u64 ready_at=0; bool armed=false; bool tty=false; bool eofhit=false; u64 reads_at_block=0; };
struct Stub { string kind; vector<string> args; };
struct Inode { int type=T_REG; u64 ino=0; u32 mode=0644; u32 uid=0,gid=0; u32 nlink=1; string data; map<string,Inode*> kids; string target; string host; bool loaded=true; Inode*parent=nullptr; string name; u64 mtime=0, rdev=0; bool dirty=false; string chr; Stream*stream=nullptr; Stub*stub=nullptr; Pipe*fifo=nullptr; bool ro=false; bool sink=false; i64 quota=-1; i64 refs=0; };
static u64 g_ino=100; static Inode*g_root; static i64 g_disk_free=-1; static u64 g_now_for_mtime();
static Inode* mk(int t,u32 mode){ Inode*i=new Inode; i->type=t; i->mode=mode; i->ino=g_ino++; if(t==T_DIR) i->nlink=2; return i;}
static void link_in(Inode*d,const string&n,Inode*c){ d->kids[n]=c; c->parent=d; c->name=n; if(c->type==T_DIR) d->nlink++; }
static void load(Inode*i){
  if(i->loaded) return; i->loaded=true;
  if(i->type==T_REG){ int fd=open(i->host.c_str(),O_RDONLY); if(fd<0) die("import "+i->host); char b[65536]; ssize_t n; while((n=read(fd,b,sizeof b))>0) i->data.append(b,n); close(fd); }
  else if(i->type==T_DIR){ DIR*d=opendir(i->host.c_str()); if(!d) die("import dir "+i->host); vector<string> names; while(dirent*e=readdir(d)){ string n=e->d_name; if(n!="."&&n!="..") names.push_back(n);} closedir(d); sort(names.begin(),names.end());
    for(auto&n:names){ if(i->kids.count(n)) continue; string h=i->host+"/"+n; struct stat st; if(stat(h.c_str(),&st)) continue; Inode*c; if(S_ISDIR(st.st_mode)) c=mk(T_DIR,0755); else if(S_ISREG(st.st_mode)) c=mk(T_REG,(st.st_mode&0111)?0755:0644); else continue; c->host=h; c->loaded=false; c->ro=i->ro; link_in(i,n,c);} }
}
static Inode* kid(Inode*d,const string&n){ load(d); auto it=d->kids.find(n); return it==d->kids.end()?nullptr:it->second; }
static Inode* mkdirp(const string&path){ Inode*d=g_root; for(auto&c:split(path,'/')){ Inode*k=kid(d,c); if(!k){ k=mk(T_DIR,0755); link_in(d,c,k);} d=k; } return d;}
static pair<Inode*,string> parent_of(const string&path){ auto v=split(path,'/'); string d; for(size_t i=0;i+1<v.size();i++) d+="/"+v[i]; return {mkdirp(d),v.back()}; }

// ---------------------------------------------------------------- open files
struct OpenFile { Inode*ino=nullptr; i64 pos=0; int flags=0; int refs=0; Pipe*pr=nullptr; Pipe*pw=nullptr; Inode*cursor=nullptr; vector<pair<string,Inode*>> list; bool listed=false; string path; };

// ---------------------------------------------------------------- processes
static const u64 LOWB=0x10000, LOWE=0x400000000ULL;          // image + heap
static const u64 STKE=0x610000000000ULL; static u64 STKSZ=8<<20;
struct Regs { greg_t g[23]; u8 fp[512]; bool hasfp; };
struct SigAct { u64 handler=0, flags=0, restorer=0, mask=0; };
struct Frame { Regs r; u64 mask;  u64 sp=0; };
enum { RUN, BLOCKED, ZOMBIE, DEAD };
struct Proc { int pid=0, ppid=0, pgid=1; int memfd=-1; Regs regs; map<int,pair<OpenFile*,int>> fds; Inode*cwd=nullptr; u32 umask=022; u32 uid=0,gid=0,euid=0,egid=0; SigAct sa[65]; u64 blocked=0, pending=0; vector<Frame> frames; int state=RUN; int status=0; u64 segs_end=0, brk0=0, brk=0, brkmax=0; vector<pair<u64,u64>> segs; vector<int> segprot; u64 alarm_at=0, alarm_int=0; int timer_sig=SIGALRM; string exe; Stub*stub=nullptr; vector<string> argv, envp; u64 maxfd=1024;
  // blocked syscall
  long nr=0; u64 a[6]; u64 cur_seq=0; u64 wake_at=0; bool inwait=false; size_t wprog=0; u64 cputime=0; u64 steps_left=0; bool stepping=false; u64 rem_ptr=0; bool killed_core=false; bool eintr_checked=false; bool retrying=false; u64 nsys=0; u64 sig_sys_at=0; bool gcset=false; u64 gcsym=0; };
static map<int,Proc*> P; static Proc*cur=nullptr; static int g_nextpid=100; static int g_initpid=0;
static sigjmp_buf g_done; static string g_endkind; static string g_enddetail;
static u64 g_mono=0; static i64 g_wall_off=0; static u64 g_start=0; static u64 g_tick=1000; static bool g_jitter=true, g_logclk=false, g_logwait=false; static set<long> g_logsys;
static i64 g_brklimit=2LL<<30; static i64 g_memtotal=-1; static u64 g_brkoff=0, g_stkoff=0; static int g_maxfd=1024; static u8 g_fill=0; static string g_gctable; static u64 g_pipecap=65536; static i64 g_maxprocs=64; static bool g_pidrand=false;
static u64 wall(){ return g_mono+g_wall_off; }
static u64 g_now_for_mtime(){ return wall()/1000000000ULL; }
static map<string,Inode*> g_sinks; // path->sink
static u64 g_outbytes=0;
static vector<string> g_events; // world-level records (exec, exit, stub)
static map<string,u64> g_sysfail_sites;

// decisions -------------------------------------------------------
static string curpath; static int curfd=-1;
static bool pathmatch(const string&p){ return p.find_first_of("*?[")==string::npos?curpath.find(p)!=string::npos:fnmatch(p.c_str(),curpath.c_str(),0)==0; }
static bool decide(const char*kind,i64&val,const function<i64(const Rule&,u64)>&pick){
  string k=kind;
  if(g_listmode){ auto it=g_declist.find({g_seq,k}); if(it==g_declist.end()) return false; val=it->second; g_decs.push_back({g_seq,k,val}); g_fired[k]++; return true; }
  for(size_t ri=0;ri<g_rules.size();ri++){ Rule&r=g_rules[ri]; if(r.kind!=k) continue;
    if(r.pid>=0&&cur&&r.pid!=cur->pid) continue; if(r.fd>=0&&r.fd!=curfd) continue; if(r.path.size()&&!pathmatch(r.path)) continue;
    if(r.exe.size()&&cur&&cur->exe.find(r.exe)==string::npos) continue;
    if(r.nr>=0&&cur&&r.nr!=cur->nr) continue; if(r.notnr>=0&&cur&&r.notnr==cur->nr) continue;
    if(g_seq<r.after||g_seq>r.until) continue; r.seen++; if(r.max>=0&&r.hits>=r.max) continue;
    u64 h=mix(g_seed^mix(g_seq*1315423911ULL+ri*77+hstr(k)));
    bool go = r.nth>=0 ? r.seen==r.nth : h%1000000<r.ppm;
    if(!go) continue;
    i64 v=pick(r,mix(h)); if(v==INT64_MIN) continue;
    r.hits++; val=v; g_decs.push_back({g_seq,k,v}); g_fired[k]++; return true; }
  return false;
}
static i64 pickval(const Rule&r,u64 h){ return r.vals.empty()?0:r.vals[h%r.vals.size()]; }
static bool decide_val(const char*kind,i64&v){ return decide(kind,v,[](const Rule&r,u64 h){return pickval(r,h);}); }
// size decision: a value in [1,want)
static bool decide_size(const char*kind,u64 want,i64&v){ if(want<2&&!g_listmode) return false; bool ok=decide(kind,v,[want](const Rule&r,u64 h)->i64{ if(want<2) return INT64_MIN; u64 m=h%8; u64 n; if(m<2) n=1; else if(m<4) n=1+mix(h)%min<u64>(want-1,8); else if(m==4) n=want-1; else n=1+mix(h)%(want-1); if(r.vals.size()) n=min<u64>(n,r.vals[0]); return (i64)n; }); if(ok&&(u64)v>want) v=want; return ok; }

// ---------------------------------------------------------------- memory
static bool valid(u64 p,u64 n,bool wr){ (void)wr; if(n==0) return true; if(p+n<p) return false;
  if(p>=STKE-STKSZ&&p+n<=STKE) return true;
  for(size_t i=0;i<cur->segs.size();i++) if(p>=cur->segs[i].first&&p+n<=cur->segs[i].second) return !wr||(cur->segprot[i]&PROT_WRITE);
  u64 he=(cur->brk+4095)&~4095ULL, hb=cur->brk0&~4095ULL;
  // heap may adjoin the data segment
  u64 lo=hb; for(size_t i=0;i<cur->segs.size();i++) if(cur->segs[i].second==hb&&(cur->segprot[i]&PROT_WRITE)) lo=cur->segs[i].first;
  return p>=lo&&p+n<=he; }
static bool getstr(u64 p,string&s){ s.clear(); while(1){ if(!valid(p,1,false)) return false; char c=*(char*)p; if(!c) return true; s+=c; p++; if(s.size()>(1<<22)) return false; } }
static bool put(u64 p,const void*d,size_t n){ if(!valid(p,n,true)) return false; memcpy((void*)p,d,n); return true; }
static bool put_bytes_partial_ok(u64 p,const void*d,size_t n){ return put(p,d,n); }

static int g_mapped_for=-1; // pid mapped
static u64 off_of(u64 a){ return a>=STKE-STKSZ? (LOWE-LOWB)+(a-(STKE-STKSZ)) : a-LOWB; }
static void map_range(Proc*p,u64 b,u64 e,int prot){ if(b>=e) return; void*r=mmap((void*)b,e-b,prot,MAP_SHARED|MAP_FIXED,p->memfd,off_of(b)); if(r==MAP_FAILED) die("mmap "+to_string(errno)); }
static void unmap_all(){ munmap((void*)LOWB,LOWE-LOWB); munmap((void*)(STKE-STKSZ),STKSZ); }
static void map_proc(Proc*p){ if(g_mapped_for==p->pid) return; unmap_all(); if(p->memfd<0){ g_mapped_for=-1; return; }
  for(size_t i=0;i<p->segs.size();i++) map_range(p,p->segs[i].first,p->segs[i].second,p->segprot[i]);
  map_range(p,p->brk0&~4095ULL,(p->brk+4095)&~4095ULL,PROT_READ|PROT_WRITE);
  map_range(p,STKE-STKSZ,STKE,PROT_READ|PROT_WRITE); g_mapped_for=p->pid; }
static int new_memfd(){ int fd=memfd_create("g",MFD_CLOEXEC); if(fd<0) die("memfd"); if(ftruncate(fd,(LOWE-LOWB)+STKSZ)) die("ftruncate"); return fd; }
static void copy_mem(int from,int to){ off_t o=0; off_t end=(LOWE-LOWB)+STKSZ; static char buf[1<<20]; while(1){ off_t d=lseek(from,o,SEEK_DATA); if(d<0||d>=end) break; off_t h=lseek(from,d,SEEK_HOLE); if(h<0) h=end; while(d<h){ ssize_t n=pread(from,buf,min<off_t>(sizeof buf,h-d),d); if(n<=0) die("copy_mem"); if(pwrite(to,buf,n,d)!=n) die("copy_mem w"); d+=n; } o=h; } }

static map<string,u64> elf_syms(const string&img){ map<string,u64> m; const Elf64_Ehdr*e=(const Elf64_Ehdr*)img.data(); if(!e->e_shoff||e->e_shoff+e->e_shnum*sizeof(Elf64_Shdr)>img.size()) return m; const Elf64_Shdr*s=(const Elf64_Shdr*)(img.data()+e->e_shoff); for(int i=0;i<e->e_shnum;i++) if(s[i].sh_type==SHT_SYMTAB){ const Elf64_Sym*y=(const Elf64_Sym*)(img.data()+s[i].sh_offset); const char*st=img.data()+s[s[i].sh_link].sh_offset; size_t n=s[i].sh_size/sizeof(Elf64_Sym); for(size_t j=0;j<n;j++) m[st+y[j].st_name]=y[j].st_value; } return m; }

// load ELF into a fresh image of process p; returns 0 or -errno
static int load_elf(Proc*p,const string&img,const vector<string>&argv,const vector<string>&envp){
  if(img.size()<sizeof(Elf64_Ehdr)||memcmp(img.data(),"\177ELF",4)) return -ENOEXEC;
  const Elf64_Ehdr*e=(const Elf64_Ehdr*)img.data(); if(e->e_machine!=EM_X86_64||e->e_type!=ET_EXEC) return -ENOEXEC;
  size_t tot=0; for(auto&s:argv) tot+=s.size()+9; for(auto&s:envp) tot+=s.size()+9; if(tot>(STKSZ/2)) return -E2BIG;
  if(p->memfd>=0) close(p->memfd);
  p->memfd=new_memfd(); p->segs.clear(); p->segprot.clear(); u64 end=0;
  const Elf64_Phdr*ph=(const Elf64_Phdr*)(img.data()+e->e_phoff);
  for(int i=0;i<e->e_phnum;i++) if(ph[i].p_type==PT_LOAD){ u64 b=ph[i].p_vaddr&~4095ULL,en=(ph[i].p_vaddr+ph[i].p_memsz+4095)&~4095ULL; if(b<LOWB||en>LOWE) return -ENOMEM;
    if(ph[i].p_offset+ph[i].p_filesz>img.size()) return -ENOEXEC;
    if(pwrite(p->memfd,img.data()+ph[i].p_offset,ph[i].p_filesz,off_of(ph[i].p_vaddr))!=(ssize_t)ph[i].p_filesz) die("seg");
    int pr=((ph[i].p_flags&PF_R)?PROT_READ:0)|((ph[i].p_flags&PF_W)?PROT_WRITE:0)|((ph[i].p_flags&PF_X)?PROT_EXEC:0);
    p->segs.push_back({b,en}); p->segprot.push_back(pr); end=max(end,ph[i].p_vaddr+ph[i].p_memsz); }
  end=(end+4095)&~4095ULL; p->brk0=p->brk=end+g_brkoff; p->brkmax=p->brk; p->segs_end=end;
  g_mapped_for=-1; map_proc(p);
  if(g_fill) memset((void*)(STKE-65536*4),g_fill,65536*4);
  u64 sp=STKE-4096-g_stkoff; 
  // gc table page
  auto syms=elf_syms(img); p->gcset=false;
  if(g_gctable.size()&&syms.count("g_sim_gc")){ auto v=split(g_gctable,','); sp-=(v.size()+2)*8; sp&=~15ULL; i64*t=(i64*)sp; for(size_t i=0;i<v.size();i++) t[i]=atoll(v[i].c_str()); t[v.size()]=-1; t[v.size()+1]=-1; *(u64*)syms["g_sim_gc"]=sp; p->gcset=true; p->gcsym=syms["g_sim_gc"]; }
  vector<u64> av,ev; auto pushs=[&](const string&s){ sp-=s.size()+1; memcpy((void*)sp,s.c_str(),s.size()+1); return sp; };
  for(auto&s:envp) ev.push_back(pushs(s)); for(auto&s:argv) av.push_back(pushs(s));
  sp&=~15ULL; size_t words=1+av.size()+1+ev.size()+1+6; if(words&1) sp-=8; sp-=words*8; u64*w=(u64*)sp; *w++=av.size(); for(u64 x:av)*w++=x; *w++=0; for(u64 x:ev)*w++=x; *w++=0; *w++=6; *w++=4096; *w++=9; *w++=e->e_entry; *w++=0; *w++=0;
  memset(&p->regs,0,sizeof p->regs); p->regs.g[REG_RSP]=sp; p->regs.g[REG_RIP]=e->e_entry; p->regs.g[REG_EFL]=0x202; p->regs.g[REG_CSGSFS]=0x33|((u64)0x2b<<48); p->regs.hasfp=false;
  p->argv=argv; p->envp=envp; p->frames.clear(); return 0; }

// ---------------------------------------------------------------- path lookup
static bool allowed(Inode*i,int want){ // want: 4 r, 2 w, 1 x
  if(cur->euid==0){ if((want&1)&&i->type!=T_DIR&&!(i->mode&0111)) return false; return true; }
  u32 m=i->mode; int b=(i->uid==cur->euid)?(m>>6)&7:(i->gid==cur->egid)?(m>>3)&7:m&7; return (b&want)==want; }
struct Look { int err=0; Inode*dir=nullptr; Inode*ino=nullptr; string last; bool slash=false; };
static Look walk(Inode*start,const string&path,bool follow,int depth=0){
  Look L; if(path.empty()){ L.err=ENOENT; return L; } if(path.size()>=4096){ L.err=ENAMETOOLONG; return L; } if(depth>40){ L.err=ELOOP; return L; }
  Inode*d=path[0]=='/'?g_root:start; auto v=split(path,'/'); L.slash=path.back()=='/'; if(v.empty()){ L.ino=d; L.dir=d; L.last="/"; return L; }
  for(size_t i=0;i<v.size();i++){ bool lastc=i+1==v.size(); const string&c=v[i];
    if(d->type!=T_DIR){ L.err=ENOTDIR; return L; } if(!allowed(d,1)){ L.err=EACCES; return L; } if(c.size()>255){ L.err=ENAMETOOLONG; return L; }
    Inode*n; if(c==".") n=d; else if(c=="..") n=d->parent?d->parent:d; else n=kid(d,c);
    if(lastc){ L.dir=d; L.last=c; }
    if(!n){ if(lastc){ L.ino=nullptr; return L; } L.err=ENOENT; return L; }
    if(n->type==T_LNK&&(!lastc||follow||L.slash)){ Look M=walk(d,n->target,true,depth+1); if(M.err){ M.ino=nullptr; return M; } if(!M.ino){ if(lastc) return M; M.err=ENOENT; return M; } n=M.ino; if(lastc){ L.dir=M.dir; L.last=M.last; } }
    if(lastc){ L.ino=n; if(L.slash&&n->type!=T_DIR){ L.err=ENOTDIR; L.ino=nullptr; } return L; }
    d=n; }
  return L; }
static string fullpath(Inode*i){ if(i==g_root) return "/"; string s; while(i&&i!=g_root){ s="/"+i->name+s; i=i->parent; } return s; }
static string abspath(const string&p){ if(p.empty()||p[0]=='/') return p; string d=fullpath(cur->cwd); return (d=="/"?"":d)+"/"+p; }

// ---------------------------------------------------------------- fds
static OpenFile* fdget(int fd){ auto it=cur->fds.find(fd); return it==cur->fds.end()?nullptr:it->second.first; }
static void of_release(OpenFile*f){ if(--f->refs>0) return; if(f->pr) f->pr->readers--; if(f->pw) f->pw->writers--; if(f->ino) f->ino->refs--; delete f; }
static int lowfd(Proc*p,int from=0){ int n=from; while(p->fds.count(n)) n++; return n; }
static int install(OpenFile*f,int flags,int from=0){ int n=lowfd(cur,from); f->refs++; cur->fds[n]={f,flags}; return n; }
static void closefd(Proc*p,int fd){ auto it=p->fds.find(fd); if(it==p->fds.end()) return; OpenFile*f=it->second.first; p->fds.erase(it); of_release(f); }

// ---------------------------------------------------------------- signals
static void sig_send(Proc*p,int s){ if(p->state>=ZOMBIE||s==0) return; p->pending|=1ULL<<(s-1); }
static void proc_exit(Proc*p,int status);
static bool sig_ignored_default(int s){ return s==SIGCHLD||s==SIGURG||s==SIGWINCH||s==SIGCONT; }
static int sig_next(Proc*p){ u64 m=p->pending&~p->blocked; m|=p->pending&((1ULL<<(SIGKILL-1))|(1ULL<<(SIGSTOP-1))); if(!m) return 0; return __builtin_ctzll(m)+1; }
// does a pending signal interrupt a blocked call?
static bool sig_wakes(Proc*p){ u64 m=p->pending&~p->blocked; while(m){ int s=__builtin_ctzll(m)+1; m&=m-1; SigAct&a=p->sa[s]; if(a.handler==1) continue; if(a.handler==0&&sig_ignored_default(s)) continue; return true; } return (p->pending>>(SIGKILL-1))&1; }
static Regs*g_regs; // registers of cur while in handler
static bool deliver(Proc*p){ // returns false if process died
  while(int s=sig_next(p)){ p->pending&=~(1ULL<<(s-1)); SigAct a=p->sa[s];
    if(s!=SIGKILL&&s!=SIGSTOP&&a.handler==1) continue;
    if(s==SIGKILL||a.handler==0||s==SIGSTOP){ if(sig_ignored_default(s)&&s!=SIGKILL) continue; if(s==SIGTSTP||s==SIGTTIN||s==SIGTTOU||s==SIGSTOP) continue; proc_exit(p,s); return false; }
    g_events.push_back("sig "+to_string(p->pid)+" "+to_string(s)); hashin(s*31+p->pid);
    Frame f; f.r=p->regs; f.mask=p->blocked;
    u64 rsp=p->regs.g[REG_RSP]; rsp-=128; rsp-=512; rsp&=~15ULL; // room for siginfo/ucontext
    u64 info=rsp; if(!valid(rsp-16,600,true)||!(a.flags&0x04000000)){ proc_exit(p,SIGSEGV); return false; }
    memset((void*)info,0,512); *(int*)info=s; rsp-=8; *(u64*)rsp=a.restorer;
    f.sp=rsp+8; p->frames.push_back(f);
    p->blocked|=a.mask; if(!(a.flags&SA_NODEFER)) p->blocked|=1ULL<<(s-1);
    if(a.flags&SA_RESETHAND) p->sa[s].handler=0;
    p->regs.g[REG_RSP]=rsp; p->regs.g[REG_RIP]=a.handler; p->regs.g[REG_RDI]=s; p->regs.g[REG_RSI]=info; p->regs.g[REG_RDX]=info+128; p->regs.g[REG_RAX]=0; p->regs.g[REG_EFL]&=~(0x400|0x100);
    p->stepping=false; g_fired["signal_delivered"]++;
    return true; // one handler at a time; further ones nest at next boundary
  }
  return true; }

static void proc_exit(Proc*p,int status){ p->state=ZOMBIE; p->status=status; vector<int> v; for(auto&k:p->fds) v.push_back(k.first); for(int f:v) closefd(p,f);
  g_events.push_back("exit "+to_string(p->pid)+" "+to_string(status)); hashin(0xdead^status^(p->pid<<16));
  if(getenv("SIM_DUMPRIP")&&(status&127)) fprintf(stderr,"pid %d dies status %d rip=%llx\n",p->pid,status,(unsigned long long)p->regs.g[REG_RIP]);
  for(auto&k:P) if(k.second->ppid==p->pid){ k.second->ppid=1; if(k.second->state==ZOMBIE) k.second->state=DEAD; }
  auto it=P.find(p->ppid); if(it!=P.end()&&it->second->state<ZOMBIE){ Proc*q=it->second; if(q->sa[SIGCHLD].handler==1) p->state=DEAD; else sig_send(q,SIGCHLD); } else p->state=DEAD;
}

// ---------------------------------------------------------------- syscalls
static const i64 BLOCK=INT64_MIN+1, GONE=INT64_MIN+2;
static void fill_stat(Inode*i,char*b){ memset(b,0,144); u64*q=(u64*)b; u32*d=(u32*)b; load(i); q[0]=0x801; q[1]=i->ino; q[2]=i->nlink; int fm=i->type==T_REG?S_IFREG:i->type==T_DIR?S_IFDIR:i->type==T_LNK?S_IFLNK:i->type==T_FIFO?S_IFIFO:S_IFCHR; d[6]=fm|i->mode; d[7]=i->uid; d[8]=i->gid; q[5]=i->rdev; q[6]=i->type==T_REG?i->data.size():i->type==T_LNK?i->target.size():i->type==T_DIR?4096:0; q[7]=4096; q[8]=(q[6]+511)/512; q[9]=i->mtime; q[11]=i->mtime; q[13]=i->mtime; }
static Inode*pipe_inode(){ static Inode*i=nullptr; if(!i) i=mk(T_FIFO,0600); return i; }

static i64 stream_read(Stream*s,char*out,u64 n,bool nonblock,bool tty){
  if(s->eofhit&&!tty) return 0;
  while(s->idx<s->ch.size()){ Chunk&c=s->ch[s->idx];
    if(!s->armed){ if(c.wait_out>=0&&(i64)g_outbytes<c.wait_out){ if(nonblock) return -EAGAIN; cur->wake_at=0; return BLOCK; } s->ready_at=g_mono+c.delay; s->armed=true; }
    if(c.hold){ if(nonblock) return -EAGAIN; cur->wake_at=0; return BLOCK; }
    if(g_mono<s->ready_at){ if(nonblock) return -EAGAIN; cur->wake_at=s->ready_at; return BLOCK; }
    if(c.err){ s->idx++; s->armed=false; s->off=0; g_fired["stream_err"]++; return -c.err; }
    if(c.eof){ s->idx++; s->armed=false; s->off=0; if(!tty) s->eofhit=true; return 0; }
    u64 k=min<u64>(n,c.data.size()-s->off);
    i64 v; if(decide_size("short_read",k,v)) k=v;
    // a tty read never crosses a line; a pipe read may merge chunks only if decided (default: piece by piece)
    if(tty){ size_t nl=c.data.find('\n',s->off); if(nl!=string::npos) k=min<u64>(k,nl+1-s->off); }
    memcpy(out,c.data.data()+s->off,k); s->off+=k; if(s->off>=c.data.size()){ s->idx++; s->off=0; s->armed=false; }
    return k; }
  return 0; }

static u64 stable_ctr=0;
static i64 do_read(int fd,u64 buf,u64 n){
  OpenFile*f=fdget(fd); if(!f||(f->flags&3)==O_WRONLY) return -EBADF; if(!f->pr&&f->ino->type==T_DIR) return -EISDIR; if(n>0x7ffff000) n=0x7ffff000;
  if(n&&!valid(buf,n,true)){ // kernel copies what it can; treat as EFAULT only when data would be copied
    if(f->pr||f->ino->chr.size()||f->pos<(i64)f->ino->data.size()) return -EFAULT; }
  i64 v; if(!cur->retrying){ if(decide_val("read_err",v)) return -v; }
  bool nb=f->flags&O_NONBLOCK;
  if(f->pr){ if(f->pr->buf.empty()){ if(f->pr->writers==0) return 0; if(n==0) return 0; if(nb) return -EAGAIN; return BLOCK; }
    u64 k=min<u64>(n,f->pr->buf.size()); if(decide_size("short_read",k,v)) k=v; for(u64 i=0;i<k;i++){ ((u8*)buf)[i]=f->pr->buf.front(); f->pr->buf.pop_front(); } return k; }
  Inode*i=f->ino;
  if(i->stream) { if(n==0) return 0; return stream_read(i->stream,(char*)buf,n,nb,i->stream->tty); }
  if(i->chr=="null"||i->chr=="sink") return 0; if(i->chr=="zero"||i->chr=="full"){ memset((void*)buf,0,n); return n; }
  if(i->chr=="tty") return 0;
  load(i); if(f->pos>=(i64)i->data.size()) return 0; u64 k=min<u64>(n,i->data.size()-f->pos); if(decide_size("short_read",k,v)) k=v; memcpy((void*)buf,i->data.data()+f->pos,k); f->pos+=k; return k; }
static i64 file_write(OpenFile*f,const char*d,u64 n){ Inode*i=f->ino; load(i); if(n==0) return 0; u64 pos=(f->flags&O_APPEND)?i->data.size():f->pos; if(pos+n>(256u<<20)) return -EFBIG; u64 need=pos+n>i->data.size()?pos+n-i->data.size():0; if(g_disk_free>=0&&need>(u64)g_disk_free){ u64 cut=need-g_disk_free; if(cut>=n){ g_fired["enospc"]++; return -ENOSPC; } n-=cut; need-=cut; } if(g_disk_free>=0) g_disk_free-=need; if(n==0) return 0; f->pos=pos; if(f->pos+n>i->data.size()) i->data.resize(f->pos+n,0); memcpy(&i->data[f->pos],d,n); f->pos+=n; i->dirty=true; i->mtime=g_now_for_mtime(); return n; }
static i64 do_write(int fd,u64 buf,u64 n){
  OpenFile*f=fdget(fd); if(!f||(f->flags&3)==O_RDONLY) return -EBADF; if(n&&!valid(buf,n,false)) return -EFAULT; if(n>0x7ffff000) n=0x7ffff000;
  i64 v; if(!cur->retrying){ if(decide_val("write_err",v)){ if(v==EPIPE) sig_send(cur,SIGPIPE); return -v; } }
  if(f->pw){ if(f->pw->readers==0){ sig_send(cur,SIGPIPE); return cur->wprog?(i64)cur->wprog:-EPIPE; } u64 room=f->pw->cap>f->pw->buf.size()?f->pw->cap-f->pw->buf.size():0; u64 left=n-cur->wprog;
    if(n<=4096&&room<left&&cur->wprog==0) room=0; // atomic
    if(room==0){ if(f->flags&O_NONBLOCK) return cur->wprog?(i64)cur->wprog:-EAGAIN; return n==0?0:BLOCK; }
    u64 k=min(room,left); if(decide_size("short_write",n,v)&&cur->wprog==0){ k=min<u64>(k,v); for(u64 j=0;j<k;j++) f->pw->buf.push_back(((u8*)buf)[j]); return k; }
    for(u64 j=0;j<k;j++) f->pw->buf.push_back(((u8*)buf)[cur->wprog+j]); cur->wprog+=k; if(cur->wprog<n) return BLOCK; return n; }
  Inode*i=f->ino; u64 k=n;
  if(i->chr=="full") return n?-ENOSPC:0; if(i->chr=="null"||i->chr=="zero") return n;
  if(n>1&&decide_size("short_write",n,v)) k=v;
  if(i->chr=="sink"||i->chr=="tty"){ if(i->quota>=0){ u64 room=i->quota>(i64)i->data.size()?i->quota-i->data.size():0; if(room==0&&n){ g_fired["sink_full"]++; i64 e=i->rdev?(i64)i->rdev:ENOSPC; if(e==EPIPE) sig_send(cur,SIGPIPE); return -e; } k=min(k,room); } i->data.append((char*)buf,k); g_outbytes+=k; return k; }
  return file_write(f,(char*)buf,k); }

static i64 do_open(const string&path,int flags,u32 mode){
  i64 v; curpath=abspath(path); if(decide_val("open_err",v)) return -v; if((int)cur->fds.size()>=g_maxfd) return -EMFILE;
  bool creat=flags&O_CREAT; Look L=walk(cur->cwd,path,!(creat&&(flags&O_EXCL))&&!(flags&O_NOFOLLOW)); if(L.err) return -L.err; Inode*i=L.ino;
  if(i&&creat&&(flags&O_EXCL)) return -EEXIST;
  if(!i){ if(!creat) return -ENOENT; if(L.slash) return -EISDIR; if(!allowed(L.dir,3)) return -EACCES; if(L.dir->ro) return -EROFS; if(g_disk_free==0&&decide_val("create_enospc",v)) return -ENOSPC; i=mk(T_REG,mode&~cur->umask&07777); i->uid=cur->euid; i->gid=cur->egid; i->dirty=true; i->mtime=g_now_for_mtime(); link_in(L.dir,L.last,i); }
  else { if(i->type==T_LNK) return -ELOOP; if(i->type==T_DIR&&((flags&3)!=O_RDONLY||creat)) return -EISDIR; if((flags&O_DIRECTORY)&&i->type!=T_DIR) return -ENOTDIR; int w=0; int am=flags&3; if(am==O_RDONLY||am==O_RDWR) w|=4; if(am==O_WRONLY||am==O_RDWR) w|=2; if(!allowed(i,w)) return -EACCES; if((w&2)&&i->ro) return -EROFS;
    if((flags&O_TRUNC)&&i->type==T_REG&&(w&2)){ load(i); if(g_disk_free>=0) g_disk_free+=i->data.size(); i->data.clear(); i->dirty=true; i->mtime=g_now_for_mtime(); } else if((flags&O_TRUNC)&&i->type==T_REG){ load(i); i->data.clear(); i->dirty=true; } }
  OpenFile*f=new OpenFile; f->ino=i; i->refs++; f->flags=flags&~(O_CREAT|O_EXCL|O_TRUNC|O_CLOEXEC); f->path=abspath(path);
  if(i->type==T_FIFO&&i!=pipe_inode()&&!i->stream){ if(!i->fifo){ i->fifo=new Pipe; i->fifo->cap=g_pipecap; } if((flags&3)!=O_WRONLY){ f->pr=i->fifo; i->fifo->readers++; } if((flags&3)!=O_RDONLY){ f->pw=i->fifo; i->fifo->writers++; } }
  return install(f,(flags&O_CLOEXEC)?1:0); }

static i64 dir_getdents(OpenFile*f,u64 buf,u64 n,bool d64){
  if(!f->ino||f->ino->type!=T_DIR) return -ENOTDIR; i64 v; if(decide_val("getdents_err",v)) return -v;
  if(!f->listed||f->pos==0){ f->list.clear(); f->listed=true; load(f->ino); f->list.push_back({".",f->ino}); f->list.push_back({"..",f->ino->parent?f->ino->parent:f->ino}); vector<pair<string,Inode*>> k(f->ino->kids.begin(),f->ino->kids.end());
    // order decided by seed
    for(size_t i=k.size();i>1;i--) swap(k[i-1],k[mix(g_seed^f->ino->ino^i*1299709)%i]);
    for(auto&e:k) f->list.push_back(e); }
  u64 used=0; i64 maxn=1<<30; i64 remaining=(i64)f->list.size()-f->pos; if(remaining>1&&decide_size("getdents_batch",remaining,v)) maxn=v; i64 cnt=0;
  while(f->pos<(i64)f->list.size()&&cnt<maxn){ auto&e=f->list[f->pos]; if(f->pos>=2){ auto it=f->ino->kids.find(e.first); if(it==f->ino->kids.end()){ f->pos++; continue; } } u64 rl=((d64?19:18)+e.first.size()+1+ (d64?0:1) +7)&~7ULL; if(used+rl>n){ if(used==0) return -EINVAL; break; } if(!valid(buf+used,rl,true)) return -EFAULT; char*p=(char*)(buf+used); memset(p,0,rl); *(u64*)p=e.second->ino; *(u64*)(p+8)=f->pos+1; *(uint16_t*)(p+16)=rl; u8 ty=e.second->type==T_DIR?4:e.second->type==T_LNK?10:e.second->type==T_REG?8:2; if(d64){ p[18]=ty; memcpy(p+19,e.first.c_str(),e.first.size()); } else { memcpy(p+18,e.first.c_str(),e.first.size()); p[rl-1]=ty; } used+=rl; f->pos++; cnt++; }
  return used; }

static void run_stub(Proc*p);
static i64 do_execve(const string&path,vector<string> argv,vector<string> envp,int depth=0){
  i64 v; curpath=abspath(path); if(decide_val("exec_err",v)) return -v; Look L=walk(cur->cwd,path,true); if(L.err) return -L.err; if(!L.ino) return -ENOENT; Inode*i=L.ino; if(i->type!=T_REG||!allowed(i,1)) return -EACCES; load(i);
  string ev="exec "+to_string(cur->pid)+" "+enc(path); for(auto&a:argv) ev+=" "+enc(a);
  if(i->stub){ g_events.push_back(ev); cur->stub=i->stub; cur->exe=path; cur->argv=argv; cur->envp=envp; if(cur->memfd>=0){ close(cur->memfd); cur->memfd=-1; g_mapped_for=-1; } for(int s=1;s<65;s++) if(cur->sa[s].handler>1) cur->sa[s]=SigAct(); vector<int> cl; for(auto&k:cur->fds) if(k.second.second&1) cl.push_back(k.first); for(int f:cl) closefd(cur,f); run_stub(cur); return GONE; }
  if(i->data.substr(0,2)=="#!"){ if(depth>4) return -ELOOP; auto nl=i->data.find('\n'); auto w=split(i->data.substr(2,nl-2)); if(w.empty()) return -ENOEXEC; vector<string> av(w.begin(),w.end()); av.push_back(path); for(size_t k=1;k<argv.size();k++) av.push_back(argv[k]); return do_execve(w[0],av,envp,depth+1); }
  if(i->data.substr(0,4)!="\177ELF") return -ENOEXEC;
  g_events.push_back(ev); string old=cur->exe; int r=load_elf(cur,i->data,argv,envp); if(r) return r; cur->exe=path; for(int s=1;s<65;s++) if(cur->sa[s].handler>1) cur->sa[s]=SigAct(); vector<int> cl; for(auto&k:cur->fds) if(k.second.second&1) cl.push_back(k.first); for(int f:cl) closefd(cur,f);
  return GONE; }

// host-implemented child programs --------------------------------
static string stub_file(Proc*p,const string&path,int&err){ Look L=walk(p->cwd,path,true); err=0; if(L.err){ err=L.err; return ""; } if(!L.ino){ err=ENOENT; return ""; } load(L.ino); return L.ino->data; }
static int stub_write(Proc*p,int fd,const string&s){ OpenFile*f=nullptr; auto it=p->fds.find(fd); if(it==p->fds.end()) return -EBADF; f=it->second.first; if(f->pw){ for(char c:s) f->pw->buf.push_back(c); return 0; } if(!f->ino) return -EBADF; if(f->ino->chr=="sink"||f->ino->chr=="tty"){ f->ino->data+=s; g_outbytes+=s.size(); return 0; } if(f->ino->chr.size()) return 0; i64 r=file_write(f,s.data(),s.size()); return r==(i64)s.size()?0:-ENOSPC; }
static int stub_output(Proc*p,const string&path,const string&d){ Look L=walk(p->cwd,path,true); if(L.err) return -L.err; Inode*i=L.ino; if(!i){ i=mk(T_REG,0755); link_in(L.dir,L.last,i);} OpenFile f; f.ino=i; f.flags=O_WRONLY; load(i); if(g_disk_free>=0) g_disk_free+=i->data.size(); i->data.clear(); i->dirty=true; size_t o=0; while(o<d.size()){ i64 r=file_write(&f,d.data()+o,d.size()-o); if(r<=0) return -ENOSPC; o+=r; } return 0; }
static void run_stub(Proc*p){ // runs atomically; the exit may be delayed by a decision
  Stub*s=p->stub; i64 v=0; int status=0; bool outcome=decide_val("stub_outcome",v); // v: exit code 1..255 | 256+signal (die before output) | 512+signal (die after partial output) | 1024 (succeed without output)
  if(s->kind=="asm"){ // M1/hex2/blood-elf stand-in: output is a function of argv and inputs
    string out="STUB "+s->args[0]+"\n", of; bool ok=true; for(size_t i=1;i<p->argv.size();i++){ if(p->argv[i]=="-f"&&i+1<p->argv.size()){ int e; string d=stub_file(p,p->argv[++i],e); if(e) ok=false; out+="<"+to_string(d.size())+":"+d+">\n"; } else if(p->argv[i]=="-o"&&i+1<p->argv.size()) of=p->argv[++i]; else out+=p->argv[i]+"\n"; }
    if(outcome&&v<256) { status=(v&255)<<8; }
    else if(outcome&&v>=256&&v<512) status=v-256;
    else if(outcome&&v>=512&&v<1024){ stub_output(p,of,out.substr(0,out.size()/2)); status=v-512; }
    else if(!ok) status=1<<8; else if(of.size()){ if(stub_output(p,of,out)) status=1<<8; } }
  else if(s->kind=="record"){ // report argv/env/fds, then exit with args[0]
    string r="argv"; for(auto&a:p->argv) r+=" "+enc(a); r+=" env"; for(auto&a:p->envp) r+=" "+enc(a); r+=" fds"; for(auto&k:p->fds) r+=" "+to_string(k.first); r+=" cwd "+enc(fullpath(p->cwd)); g_events.push_back("stub "+to_string(p->pid)+" "+r);
    if(s->args.size()>1) stub_write(p,1,undec(s->args[1]));
    status=atoi(s->args[0].c_str()); if(outcome) status=v<256?v<<8:(v-256)&127; }
  g_events.push_back("stubexit "+to_string(p->pid)+" "+to_string(status)+(outcome?" faulted":""));
  i64 delay=0; if(decide_val("stub_delay",delay)){ p->state=BLOCKED; p->nr=-2; p->status=status; p->wake_at=g_mono+delay; return; }
  proc_exit(p,status); }

static Proc* child_wait(Proc*p,i64 pid){ Proc*z=nullptr; for(auto&k:P){ Proc*c=k.second; if(c->ppid!=p->pid||c->state==DEAD) continue; if(pid>0&&c->pid!=pid) continue; if(pid==0&&c->pgid!=p->pgid) continue; if(pid<-1&&c->pgid!=-pid) continue; if(!z||(c->state==ZOMBIE&&z->state!=ZOMBIE)) z=c; } return z; }

static i64 sysfail(const char*k){ i64 v; if(decide_val(k,v)) return -v; return 0; }

static i64 do_sys(long nr,u64*a){
  string s,t; i64 v; curfd=-1; curpath="";
  #define STR(x,d) if(!getstr(x,d)) return -EFAULT
  #define FAILP(path) curpath=abspath(path); if(decide_val("sys_err",v)) return -v
  #define FAILF(fd) curfd=fd; {OpenFile*_f=fdget(fd); if(_f) curpath=_f->path;} if(decide_val("sys_err",v)) return -v
  switch(nr){
  case SYS_read: { curfd=a[0]; OpenFile*f=fdget((int)a[0]); if(f) curpath=f->path; return do_read((int)a[0],a[1],a[2]); }
  case SYS_write:{ curfd=a[0]; OpenFile*f=fdget((int)a[0]); if(f) curpath=f->path; return do_write((int)a[0],a[1],a[2]); }
  case SYS_open: STR(a[0],s); return do_open(s,(int)a[1],(u32)a[2]);
  case SYS_creat: STR(a[0],s); return do_open(s,O_CREAT|O_WRONLY|O_TRUNC,(u32)a[1]);
  case SYS_openat: STR(a[1],s); if((int)a[0]!=AT_FDCWD&&s[0]!='/') return -ENOSYS; return do_open(s,(int)a[2],(u32)a[3]);
  case SYS_close: { int fd=(int)a[0]; if(!fdget(fd)) return -EBADF; curfd=fd; curpath=fdget(fd)->path; bool e=decide_val("close_err",v); closefd(cur,fd); return e?-v:0; }
  case SYS_lseek: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; FAILF((int)a[0]); if(f->pr||f->pw||f->ino->chr.size()||f->ino->stream){ if(f->ino&&(f->ino->chr=="null"||f->ino->chr=="zero")) return 0; return -ESPIPE; } load(f->ino); i64 o=(i64)a[1],base; switch((int)a[2]){case 0:base=0;break;case 1:base=f->pos;break;case 2:base=f->ino->type==T_REG?f->ino->data.size():0;break;default:return -EINVAL;} if(base+o<0) return -EINVAL; f->pos=base+o; if(f->ino->type==T_DIR&&f->pos==0) f->listed=false; return f->pos; }
  case SYS_access: case SYS_faccessat:{ u64 p=nr==SYS_access?a[0]:a[1]; int m=nr==SYS_access?a[1]:a[2]; STR(p,s); if(m&~7) return -EINVAL; FAILP(s); Look L=walk(cur->cwd,s,true); if(L.err) return -L.err; if(!L.ino) return -ENOENT; if(m&&!allowed(L.ino,m&7)) return -EACCES; if((m&2)&&L.ino->ro) return -EROFS; return 0; }
  case SYS_stat: case SYS_lstat: case SYS_newfstatat:{ u64 p=nr==SYS_newfstatat?a[1]:a[0],b=nr==SYS_newfstatat?a[2]:a[1]; bool nf=nr==SYS_lstat||(nr==SYS_newfstatat&&(a[3]&AT_SYMLINK_NOFOLLOW)); STR(p,s); if(nr==SYS_newfstatat&&s.empty()&&(a[3]&AT_EMPTY_PATH)){ OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; char st[144]; fill_stat(f->pr||f->pw?pipe_inode():f->ino,st); return put(b,st,144)?0:-EFAULT; } FAILP(s); Look L=walk(cur->cwd,s,!nf); if(L.err) return -L.err; if(!L.ino) return -ENOENT; char st[144]; fill_stat(L.ino,st); return put(b,st,144)?0:-EFAULT; }
  case SYS_fstat: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; FAILF((int)a[0]); char st[144]; fill_stat(f->pr||f->pw?pipe_inode():f->ino,st); return put(a[1],st,144)?0:-EFAULT; }
  case SYS_mkdir: STR(a[0],s); { FAILP(s); while(s.size()>1&&s.back()=='/') s.pop_back(); Look L=walk(cur->cwd,s,false); if(L.err) return -L.err; if(L.ino) return -EEXIST; if(!allowed(L.dir,3)) return -EACCES; if(L.dir->ro) return -EROFS; Inode*i=mk(T_DIR,(u32)a[1]&~cur->umask&01777); i->uid=cur->euid; i->gid=cur->egid; i->dirty=true; i->mtime=g_now_for_mtime(); link_in(L.dir,L.last,i); return 0; }
  case SYS_mknod: STR(a[0],s); { FAILP(s); Look L=walk(cur->cwd,s,false); if(L.err) return -L.err; if(L.ino) return -EEXIST; if(L.slash) return -ENOENT; if(!allowed(L.dir,3)) return -EACCES; if(L.dir->ro) return -EROFS; int fm=a[1]&S_IFMT; int ty; if(fm==0||fm==S_IFREG) ty=T_REG; else if(fm==S_IFIFO) ty=T_FIFO; else if(fm==S_IFCHR||fm==S_IFBLK) { if(cur->euid) return -EPERM; ty=T_CHR; } else return fm==S_IFDIR?-EPERM:-EINVAL; Inode*i=mk(ty,(u32)a[1]&~cur->umask&07777); if(ty==T_CHR){ i->chr="null"; i->rdev=a[2]; } i->uid=cur->euid; i->gid=cur->egid; i->dirty=true; i->mtime=g_now_for_mtime(); link_in(L.dir,L.last,i); return 0; }
  case SYS_rmdir: STR(a[0],s); { FAILP(s); Look L=walk(cur->cwd,s,false); if(L.err) return -L.err; if(!L.ino) return -ENOENT; if(L.last==".") return -EINVAL; if(L.last=="..") return -ENOTEMPTY; if(L.ino->type!=T_DIR) return -ENOTDIR; if(L.ino==g_root) return -EBUSY; load(L.ino); if(!allowed(L.dir,3)) return -EACCES; if(L.dir->ro) return -EROFS; if(L.ino->kids.size()) return -ENOTEMPTY; L.dir->kids.erase(L.last); L.dir->nlink--; L.ino->nlink=0; L.ino->dirty=true; return 0; }
  case SYS_unlink: STR(a[0],s); { FAILP(s); Look L=walk(cur->cwd,s,false); if(L.err) return -L.err; if(!L.ino) return -ENOENT; if(L.ino->type==T_DIR) return -EISDIR; if(!allowed(L.dir,3)) return -EACCES; if(L.dir->ro) return -EROFS; L.dir->kids.erase(L.last); L.ino->nlink--; return 0; }
  case SYS_link: STR(a[0],s); STR(a[1],t); { FAILP(s); Look A=walk(cur->cwd,s,false); if(A.err) return -A.err; if(!A.ino) return -ENOENT; Look B=walk(cur->cwd,t,false); if(B.err) return -B.err; if(B.ino) return -EEXIST; if(A.ino->type==T_DIR) return -EPERM; if(B.slash) return -ENOENT; if(!allowed(B.dir,3)) return -EACCES; if(B.dir->ro) return -EROFS; if(A.ino->ro) return -EXDEV; Inode*p0=A.ino->parent; string n0=A.ino->name; B.dir->kids[B.last]=A.ino; A.ino->parent=p0; A.ino->name=n0; A.ino->nlink++; A.ino->dirty=true; return 0; }
  case SYS_symlink: STR(a[0],s); STR(a[1],t); { FAILP(t); if(s.empty()) return -ENOENT; if(s.size()>=4096) return -ENAMETOOLONG; Look B=walk(cur->cwd,t,false); if(B.err) return -B.err; if(B.ino) return -EEXIST; if(B.slash) return -ENOENT; if(!allowed(B.dir,3)) return -EACCES; if(B.dir->ro) return -EROFS; Inode*i=mk(T_LNK,0777); i->target=s; i->uid=cur->euid; i->gid=cur->egid; i->dirty=true; link_in(B.dir,B.last,i); return 0; }
  case SYS_readlink: STR(a[0],s); { if((i64)a[2]<=0) return -EINVAL; FAILP(s); Look L=walk(cur->cwd,s,false); if(L.err) return -L.err; if(!L.ino) return -ENOENT; if(L.ino->type!=T_LNK) return -EINVAL; u64 n=min<u64>(a[2],L.ino->target.size()); return put(a[1],L.ino->target.data(),n)?(i64)n:-EFAULT; }
  case SYS_rename: STR(a[0],s); STR(a[1],t); { FAILP(s); Look A=walk(cur->cwd,s,false); if(A.err) return -A.err; if(A.last=="."||A.last=="..") return -EBUSY; Look B=walk(cur->cwd,t,false); if(B.err==ENOTDIR&&A.ino&&A.ino->type==T_DIR&&B.dir==nullptr) return -ENOTDIR; if(B.err) return -B.err; if(B.last=="."||B.last=="..") return -EBUSY; if(!A.ino) return -ENOENT; if(A.ino==g_root||B.ino==g_root) return -EBUSY; if(A.ino->type!=T_DIR&&B.slash) return -ENOTDIR; if(!allowed(A.dir,3)||!allowed(B.dir,3)) return -EACCES; if(A.dir->ro||B.dir->ro) return -EROFS; if(A.ino->type==T_DIR) for(Inode*x=B.dir;x&&x!=g_root;x=x->parent) if(x==A.ino) return -EINVAL; if(B.ino){ if(B.ino==A.ino) return 0; if(A.ino->type==T_DIR&&B.ino->type!=T_DIR) return -ENOTDIR; if(A.ino->type!=T_DIR&&B.ino->type==T_DIR) return -EISDIR; load(B.ino); if(B.ino->type==T_DIR&&B.ino->kids.size()) return -ENOTEMPTY; if(B.ino->type==T_DIR) B.dir->nlink--; B.ino->nlink=B.ino->type==T_DIR?0:B.ino->nlink-1; B.dir->kids.erase(B.last); } A.dir->kids.erase(A.last); if(A.ino->type==T_DIR) A.dir->nlink--; link_in(B.dir,B.last,A.ino); A.ino->dirty=true; return 0; }
  case SYS_chmod: STR(a[0],s); { FAILP(s); Look L=walk(cur->cwd,s,true); if(L.err) return -L.err; if(!L.ino) return -ENOENT; if(cur->euid&&cur->euid!=L.ino->uid) return -EPERM; if(L.ino->ro) return -EROFS; L.ino->mode=a[1]&07777; L.ino->dirty=true; return 0; }
  case SYS_fchmod: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; FAILF((int)a[0]); if(!f->ino) return -EPERM; f->ino->mode=a[1]&07777; return 0; }
  case SYS_chown: case SYS_lchown: STR(a[0],s); { FAILP(s); Look L=walk(cur->cwd,s,nr==SYS_chown); if(L.err) return -L.err; if(!L.ino) return -ENOENT; if(cur->euid) return -EPERM; if((i64)(int)a[1]!=-1) L.ino->uid=a[1]; if((i64)(int)a[2]!=-1) L.ino->gid=a[2]; return 0; }
  case SYS_chdir: STR(a[0],s); { FAILP(s); Look L=walk(cur->cwd,s,true); if(L.err) return -L.err; if(!L.ino) return -ENOENT; if(L.ino->type!=T_DIR) return -ENOTDIR; if(!allowed(L.ino,1)) return -EACCES; cur->cwd=L.ino; return 0; }
  case SYS_fchdir: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; if(!f->ino||f->ino->type!=T_DIR) return -ENOTDIR; cur->cwd=f->ino; return 0; }
  case SYS_getcwd: { FAILP(""); string p=fullpath(cur->cwd); if(cur->cwd!=g_root&&cur->cwd->nlink==0) return -ENOENT; if(a[1]<p.size()+1) return -ERANGE; return put(a[0],p.c_str(),p.size()+1)?(i64)p.size()+1:-EFAULT; }
  case SYS_getdents: case SYS_getdents64: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; curfd=a[0]; curpath=f->path; return dir_getdents(f,a[1],a[2],nr==SYS_getdents64); }
  case SYS_dup: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; FAILF((int)a[0]); if((int)cur->fds.size()>=g_maxfd) return -EMFILE; return install(f,0); }
  case SYS_dup2: case SYS_dup3: { OpenFile*f=fdget((int)a[0]); int n=(int)a[1]; if(!f||n<0||n>=1048576) return -EBADF; FAILF((int)a[0]); if((int)a[0]==n) return nr==SYS_dup3?-EINVAL:n; f->refs++; closefd(cur,n); cur->fds[n]={f,nr==SYS_dup3&&(a[2]&O_CLOEXEC)?1:0}; return n; }
  case SYS_fcntl: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; FAILF((int)a[0]); switch((int)a[1]){ case F_DUPFD: case F_DUPFD_CLOEXEC: if((i64)(int)a[2]<0||(int)a[2]>=g_maxfd) return -EINVAL; return install(f,(int)a[1]==F_DUPFD_CLOEXEC,(int)a[2]); case F_GETFD: return cur->fds[a[0]].second; case F_SETFD: cur->fds[a[0]].second=a[2]&1; return 0; case F_GETFL: return f->flags; case F_SETFL: f->flags=(f->flags&~(O_APPEND|O_NONBLOCK))|(a[2]&(O_APPEND|O_NONBLOCK)); return 0; } return -EINVAL; }
  case SYS_ioctl: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; FAILF((int)a[0]); bool tty=f->ino&&(f->ino->chr=="tty"||(f->ino->stream&&f->ino->stream->tty)); if(!tty) return -ENOTTY; if(a[1]==0x5401){ char b[36]; memset(b,0,36); *(u32*)(b+12)=0x8a3b; return put(a[2],b,36)?0:-EFAULT; } if(a[1]==0x540f||a[1]==0x5413){ char z[8]={0}; return put(a[2],z,a[1]==0x540f?4:8)?0:-EFAULT; } return 0; }
  case SYS_fsync: case SYS_fdatasync: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; FAILF((int)a[0]); if(f->pr||f->pw||f->ino->chr.size()) return -EINVAL; return 0; }
  case SYS_truncate: STR(a[0],s); { FAILP(s); Look L=walk(cur->cwd,s,true); if(L.err) return -L.err; if(!L.ino) return -ENOENT; if(L.ino->type==T_DIR) return -EISDIR; load(L.ino); L.ino->data.resize(a[1]); L.ino->dirty=true; return 0; }
  case SYS_ftruncate: { OpenFile*f=fdget((int)a[0]); if(!f) return -EBADF; FAILF((int)a[0]); if(!f->ino||f->ino->type!=T_REG) return -EINVAL; load(f->ino); f->ino->data.resize(a[1]); f->ino->dirty=true; return 0; }
  case SYS_utime: case SYS_sync: return 0;
  case SYS_umask: { u32 o=cur->umask; cur->umask=a[0]&0777; return o; }
  case SYS_pipe: case SYS_pipe2: { FAILP(""); if((int)cur->fds.size()+2>g_maxfd) return -EMFILE; if(!valid(a[0],8,true)) return -EFAULT; Pipe*p=new Pipe; p->cap=g_pipecap; OpenFile*r=new OpenFile,*w=new OpenFile; r->pr=p; w->pw=p; p->readers=p->writers=1; r->flags=O_RDONLY; w->flags=O_WRONLY; r->ino=nullptr; w->ino=nullptr; int fl=nr==SYS_pipe2&&(a[1]&O_CLOEXEC); int x[2]; x[0]=install(r,fl); x[1]=install(w,fl); put(a[0],x,8); return 0; }
  case SYS_brk: { u64 n=a[0]; if(n<cur->brk0||n==cur->brk) return cur->brk; if(n<cur->brk){ cur->brk=n; return n; } if((i64)(n-cur->brk0)>g_brklimit||n>=LOWE||(i64)n<0){ g_fired["brk_limit"]++; return cur->brk; } if(decide_val("brk_fail",v)) return cur->brk; u64 ob=(cur->brk+4095)&~4095ULL,nb=(n+4095)&~4095ULL; map_range(cur,ob,nb,PROT_READ|PROT_WRITE); cur->brk=n; cur->brkmax=max(cur->brkmax,n); return n; }
  case SYS_mmap: case SYS_mprotect: case SYS_munmap: return -ENOSYS;
  case SYS_getpid: return cur->pid; case SYS_getppid: return cur->ppid;
  case SYS_getuid: return cur->uid; case SYS_getgid: return cur->gid; case SYS_geteuid: return cur->euid; case SYS_getegid: return cur->egid;
  case SYS_getpgrp: return cur->pgid; case SYS_gettid: return cur->pid;
  case SYS_setuid: FAILP(""); if(cur->euid==0){ cur->uid=cur->euid=a[0]; return 0; } if((u32)a[0]==cur->uid){ cur->euid=a[0]; return 0; } return -EPERM;
  case SYS_setgid: FAILP(""); if(cur->euid==0){ cur->gid=cur->egid=a[0]; return 0; } if((u32)a[0]==cur->gid){ cur->egid=a[0]; return 0; } return -EPERM;
  case SYS_uname: { char b[390]; memset(b,0,390); strcpy(b,"Linux"); strcpy(b+65,"sim"); strcpy(b+130,"6.0"); strcpy(b+195,"#1"); strcpy(b+260,"x86_64"); return put(a[0],b,390)?0:-EFAULT; }
  case SYS_time: { i64 x=(i64)wall()/1000000000LL; if(a[0]&&!put(a[0],&x,8)) return -EFAULT; return x; }
  case SYS_gettimeofday: { FAILP(""); i64 x[2]={(i64)wall()/1000000000LL,(i64)wall()%1000000000LL/1000}; if(a[0]&&!put(a[0],x,16)) return -EFAULT; if(a[1]){ int z[2]={0,0}; if(!put(a[1],z,8)) return -EFAULT; } return 0; }
  case SYS_clock_gettime: { FAILP(""); u64 x; switch((int)a[0]){ case 0: case 5: x=wall(); break; case 1: case 4: case 6: case 7: x=g_mono; break; case 2: case 3: x=cur->cputime; break; default: return -EINVAL; } i64 y[2]={(i64)x/1000000000LL,(i64)x%1000000000LL}; return put(a[1],y,16)?0:-EFAULT; }
  case SYS_times: { i64 x[4]={(i64)cur->cputime/10000000,0,0,0}; if(a[0]&&!put(a[0],x,32)) return -EFAULT; return g_mono/10000000; }
  case SYS_getrusage: { FAILP(""); if((int)a[0]!=0&&(int)a[0]!=-1&&(int)a[0]!=1) return -EINVAL; i64 x[18]; memset(x,0,sizeof x); if((int)a[0]!=-1){ x[0]=cur->cputime/1000000000; x[1]=cur->cputime%1000000000/1000; } return put(a[1],x,144)?0:-EFAULT; }
  case SYS_nanosleep: { if(!valid(a[0],16,false)) return -EFAULT; i64*q=(i64*)a[0]; if(q[0]<0||q[1]<0||q[1]>999999999) return -EINVAL; if(!cur->retrying){ u64 d=q[0]>4400000000LL?4400000000ULL*1000000000ULL:q[0]*1000000000ULL+q[1]; cur->wake_at=g_mono+d; cur->rem_ptr=a[1]; if(d==0) return 0; return BLOCK; } if(g_mono>=cur->wake_at) return 0; return BLOCK; }
  case SYS_pause: return BLOCK;
  case SYS_alarm: { u64 o=cur->alarm_at>g_mono?(cur->alarm_at-g_mono+999999999)/1000000000:0; cur->alarm_at=a[0]?g_mono+a[0]*1000000000ULL:0; cur->alarm_int=0; return o; }
  case SYS_setitimer: { if((int)a[0]!=0) return -EINVAL; FAILP(""); i64 q[4]={0,0,0,0}; if(a[1]){ if(!valid(a[1],32,false)) return -EFAULT; memcpy(q,(void*)a[1],32); if(q[1]<0||q[1]>999999||q[3]<0||q[3]>999999) return -EINVAL; } u64 rem=cur->alarm_at>g_mono?cur->alarm_at-g_mono:0; i64 o[4]={(i64)(cur->alarm_int/1000000000),(i64)(cur->alarm_int%1000000000/1000),(i64)(rem/1000000000),(i64)(rem%1000000000/1000)}; if(a[2]&&!put(a[2],o,32)) return -EFAULT; u64 n=q[2]*1000000000ULL+q[3]*1000; cur->alarm_int=q[0]*1000000000ULL+q[1]*1000; cur->alarm_at=n?g_mono+n:0; return 0; }
  case SYS_rt_sigaction: { int sg=(int)a[0]; if(sg<1||sg>64||a[3]!=8) return -EINVAL; FAILP(""); if(a[1]&&(sg==SIGKILL||sg==SIGSTOP)) return -EINVAL; SigAct o=cur->sa[sg]; u64 n[4]; if(a[1]){ if(!valid(a[1],32,false)) return -EFAULT; memcpy(n,(void*)a[1],32); } if(a[2]){ u64 q[4]={o.handler,o.flags,o.restorer,o.mask}; if(!put(a[2],q,32)) return -EFAULT; } if(a[1]){ cur->sa[sg].handler=n[0]; cur->sa[sg].flags=n[1]; cur->sa[sg].restorer=n[2]; cur->sa[sg].mask=n[3]&~((1ULL<<(SIGKILL-1))|(1ULL<<(SIGSTOP-1))); if(n[0]==1) cur->pending&=~(1ULL<<(sg-1)); } return 0; }
  case SYS_rt_sigprocmask: { if(a[3]!=8) return -EINVAL; FAILP(""); u64 o=cur->blocked; u64 n=0; if(a[1]){ if(!valid(a[1],8,false)) return -EFAULT; n=*(u64*)a[1]; if((int)a[0]<0||(int)a[0]>2) return -EINVAL; } if(a[2]&&!put(a[2],&o,8)) return -EFAULT; if(a[1]){ if(a[0]==0) cur->blocked|=n; else if(a[0]==1) cur->blocked&=~n; else cur->blocked=n; cur->blocked&=~((1ULL<<(SIGKILL-1))|(1ULL<<(SIGSTOP-1))); } return 0; }
  case SYS_rt_sigpending: { u64 o=cur->pending&cur->blocked; return put(a[0],&o,8)?0:-EFAULT; }
  case SYS_rt_sigreturn: { while(cur->frames.size()&&cur->frames.back().sp!=(u64)cur->regs.g[REG_RSP]) cur->frames.pop_back(); /* as the kernel, which finds the frame by the stack pointer */ if(cur->frames.empty()){ proc_exit(cur,SIGSEGV); return GONE; } Frame f=cur->frames.back(); cur->frames.pop_back(); cur->regs=f.r; cur->blocked=f.mask; return GONE; }
  case SYS_kill: { i64 pid=(i64)(int)a[0]; int sg=(int)a[1]; if(sg<0||sg>64) return -EINVAL; curpath=""; if(decide_val("sys_err",v)) return -v; vector<Proc*> tg; for(auto&k:P){ Proc*p=k.second; if(p->state==DEAD) continue; if(pid>0?p->pid==pid:pid==0?p->pgid==cur->pgid:pid==-1?p!=cur:p->pgid==-pid) tg.push_back(p); } if(tg.empty()) return -ESRCH; for(auto*p:tg){ sig_send(p,sg); } return 0; }
  case SYS_tgkill: { auto it=P.find((int)a[1]); if(it==P.end()||it->second->state==DEAD) return -ESRCH; sig_send(it->second,(int)a[2]); return 0; }
  case SYS_tkill: { auto it=P.find((int)a[0]); if(it==P.end()||it->second->state==DEAD) return -ESRCH; sig_send(it->second,(int)a[1]); return 0; }
  case SYS_fork: case SYS_vfork: case SYS_clone: { if(decide_val("fork_err",v)) return -v; int alive=0; for(auto&k:P) if(k.second->state!=DEAD) alive++; if(alive>=g_maxprocs) return -EAGAIN; Proc*c=new Proc(*cur); c->pid=g_pidrand?(int)(300+mix(g_seed*31+g_seq)%30000):g_nextpid++; while(P.count(c->pid)) c->pid++; c->ppid=cur->pid; c->memfd=new_memfd(); copy_mem(cur->memfd,c->memfd); for(auto&k:c->fds) k.second.first->refs++; c->pending=0; c->alarm_at=0; c->alarm_int=0; c->state=RUN; c->regs.g[REG_RAX]=0; c->cputime=0; c->retrying=false; P[c->pid]=c; g_events.push_back("fork "+to_string(cur->pid)+" "+to_string(c->pid)); return c->pid; }
  case SYS_execve: { STR(a[0],s); vector<string> av,ev; for(int w=0;w<2;w++){ u64 p=a[1+w]; if(!p) continue; while(1){ if(!valid(p,8,false)) return -EFAULT; u64 q=*(u64*)p; if(!q) break; if(!getstr(q,t)) return -EFAULT; (w?ev:av).push_back(t); p+=8; if(av.size()>100000) return -E2BIG; } } return do_execve(s,av,ev); }
  case SYS_wait4: { if(g_logwait&&!cur->retrying) g_events.push_back("waiting "+to_string(cur->pid)+" "+to_string((int)a[0])+" "+to_string((int)a[2])); if(!cur->retrying&&decide_val("wait_err",v)) return -v; if(a[2]&~(u64)0x4000000b&0xffffffff) return -EINVAL; Proc*z=child_wait(cur,(i64)(int)a[0]); if(!z) return -ECHILD; if(z->state==ZOMBIE){ if(a[1]&&!put(a[1],&z->status,4)) return -EFAULT; z->state=DEAD; if(z->memfd>=0){ close(z->memfd); z->memfd=-1; } return z->pid; } if(a[2]&1) return 0; return BLOCK; }
  case SYS_exit: case SYS_exit_group: proc_exit(cur,((int)a[0]&255)<<8); return GONE;
  case 500: { // private: sense whether the simulator is there (unused by repository code)
    return 12345; }
  }
  g_fired["unknown_syscall_"+to_string(nr)]++; return -ENOSYS; }

// ---------------------------------------------------------------- scheduling
static const char* endreason=nullptr;
[[noreturn]] static void finish(const string&kind,const string&det=""){ g_endkind=kind; g_enddetail=det; siglongjmp(g_done,1); }
static void timers(){ for(auto&k:P){ Proc*p=k.second; if(p->state<ZOMBIE&&p->alarm_at&&g_mono>=p->alarm_at){ sig_send(p,p->timer_sig); p->alarm_at=p->alarm_int?g_mono+p->alarm_int:0; } } }
static void advance(u64 ns){ g_mono+=ns; if(cur) cur->cputime+=ns; timers(); }
static bool try_complete(Proc*p){ // a blocked process: can it go on?  (p is made current)
  if(p->nr==-2){ if(g_mono>=p->wake_at){ p->state=RUN; proc_exit(p,p->status); return false; } return false; }
  Proc*sv=cur; cur=p; map_proc(p); p->retrying=true;
  if(sig_wakes(p)){ // interrupted
    { u64 m=p->pending&~p->blocked; while(m){ int x=__builtin_ctzll(m)+1; m&=m-1; if(p->sa[x].handler==1||(p->sa[x].handler==0&&sig_ignored_default(x))) p->pending&=~(1ULL<<(x-1)); } } // ignored signals are gone first
    int s=sig_next(p); SigAct&a=p->sa[s]; p->state=RUN; p->retrying=false;
    if(p->nr==SYS_write&&p->wprog){ p->regs.g[REG_RAX]=p->wprog; }
    else if(a.handler>1&&(a.flags&SA_RESTART)&&(p->nr==SYS_read||p->nr==SYS_write||p->nr==SYS_wait4)){ p->regs.g[REG_RIP]-=2; p->regs.g[REG_RAX]=p->nr; }
    else { if(p->nr==SYS_nanosleep&&p->rem_ptr){ u64 r=p->wake_at>g_mono?p->wake_at-g_mono:0; i64 y[2]={(i64)(r/1000000000),(i64)(r%1000000000)}; put(p->rem_ptr,y,16); } p->regs.g[REG_RAX]=-EINTR; g_fired["eintr"]++; if(g_logsys.count(p->nr)) g_events.push_back("sys "+to_string(p->pid)+" "+to_string(p->nr)+" -4"); }
    p->wprog=0; bool alive=deliver(p); cur=sv; return alive; }
  u64 savedseq=g_seq; g_seq=p->cur_seq; i64 r=do_sys(p->nr,p->a); g_seq=savedseq; p->retrying=false;
  if(r==BLOCK){ p->retrying=true; cur=sv; return false; }
  if(r!=GONE&&g_logsys.count(p->nr)) g_events.push_back("sys "+to_string(p->pid)+" "+to_string(p->nr)+" "+to_string(r));
  p->state=RUN; p->wprog=0; if(r!=GONE) p->regs.g[REG_RAX]=r; hashin(r); cur=sv; return p->state==RUN; }

static bool schedule(){ // choose the process to run next; sets cur; false when the world ended
  for(u64 guard=0;;guard++){
    if(P[g_initpid]->state>=ZOMBIE){ // main ended: world ends when the others are quiescent? keep simple: end now unless asked
      bool other=false; for(auto&k:P) if(k.second->state==RUN||k.second->state==BLOCKED) other=true; if(!other||true) return false; }
    vector<Proc*> cand; for(auto&k:P) if(k.second->state==RUN) cand.push_back(k.second);
    for(auto&k:P) if(k.second->state==BLOCKED) cand.push_back(k.second);
    // default choice: current if runnable, else round robin from current pid
    vector<Proc*> ord; if(cur&&cur->state==RUN) ord.push_back(cur); int cp=cur?cur->pid:0; vector<Proc*> rest; for(auto*c:cand) if(!(cur&&c==cur&&cur->state==RUN)) rest.push_back(c); sort(rest.begin(),rest.end(),[&](Proc*x,Proc*y){ bool xa=x->pid>cp,ya=y->pid>cp; if(xa!=ya) return xa; return x->pid<y->pid; }); for(auto*c:rest) ord.push_back(c);
    i64 v; if(ord.size()>1&&guard==0&&decide("sched",v,[&](const Rule&,u64 h)->i64{ i64 k=h%ord.size(); return k==0?INT64_MIN:k; })){ if(v>0&&v<(i64)ord.size()){ Proc*x=ord[v]; ord.erase(ord.begin()+v); ord.insert(ord.begin(),x); } }
    u64 prog0=0; for(auto&k:P) prog0+=k.second->wprog+(k.second->state>=ZOMBIE);
    for(auto*c:ord){ if(c->state==RUN||try_complete(c)){ if(c->state!=RUN) continue; if(cur!=c) g_switches++; cur=c; return true; } if(P[g_initpid]->state>=ZOMBIE) return false; }
    u64 prog1=0; for(auto&k:P) prog1+=k.second->wprog+(k.second->state>=ZOMBIE); if(prog1!=prog0) continue; // a blocked writer went on, or a process ended
    // nobody can run: advance time to the next event
    u64 nx=~0ULL; for(auto&k:P){ Proc*p=k.second; if(p->state==BLOCKED&&p->wake_at>g_mono) nx=min(nx,p->wake_at); if(p->state<ZOMBIE&&p->alarm_at>g_mono) nx=min(nx,p->alarm_at); }
    if(nx==~0ULL) finish("stall");
    g_mono=nx; timers(); } }

static bool g_safesig;             // signals decided by the seed only go to who handles them
static void async_send(Proc*p,int sg){ if(g_safesig&&(p->sa[sg].handler==0||p->nr==SYS_execve)) return; sig_send(p,sg); }
static void check_async(){ // signals decided by the seed
  i64 v; if(decide_val("signal",v)){ for(auto&k:P) if(k.second->state<ZOMBIE&&k.second->memfd>=0&&(k.second==cur)) async_send(k.second,(int)v); }
  if(decide_val("clockjump",v)) { i64 w; if(!__builtin_add_overflow((i64)(g_wall_off+g_mono),v,&w) && w>=0 && w<=4700000000000000000LL) g_wall_off+=v; } }

static void ctx_load(ucontext_t*u,Proc*p){ memcpy(p->regs.g,u->uc_mcontext.gregs,sizeof p->regs.g); if(u->uc_mcontext.fpregs){ memcpy(p->regs.fp,u->uc_mcontext.fpregs,512); p->regs.hasfp=true; } }
static void ctx_store(ucontext_t*u,Proc*p){ greg_t cs=u->uc_mcontext.gregs[REG_CSGSFS]; memcpy(u->uc_mcontext.gregs,p->regs.g,sizeof p->regs.g); u->uc_mcontext.gregs[REG_CSGSFS]=cs; if(u->uc_mcontext.fpregs&&p->regs.hasfp){ // keep xsave software-reserved bytes
    memcpy(u->uc_mcontext.fpregs,p->regs.fp,464); } else if(u->uc_mcontext.fpregs){ u8*f=(u8*)u->uc_mcontext.fpregs; memset(f,0,464); *(uint16_t*)f=0x37f; *(u32*)(f+24)=0x1f80; *(u32*)(f+28)=0xffff; }
}
static const char*sysname(long nr){ static map<long,const char*> m={{0,"read"},{1,"write"},{2,"open"},{3,"close"},{4,"stat"},{5,"fstat"},{6,"lstat"},{8,"lseek"},{12,"brk"},{13,"sigaction"},{14,"sigprocmask"},{15,"sigreturn"},{16,"ioctl"},{21,"access"},{22,"pipe"},{32,"dup"},{33,"dup2"},{35,"nanosleep"},{39,"getpid"},{57,"fork"},{59,"execve"},{60,"exit"},{61,"wait4"},{62,"kill"},{72,"fcntl"},{74,"fsync"},{78,"getdents"},{79,"getcwd"},{80,"chdir"},{82,"rename"},{83,"mkdir"},{84,"rmdir"},{86,"link"},{87,"unlink"},{88,"symlink"},{89,"readlink"},{90,"chmod"},{96,"gettimeofday"},{201,"time"},{228,"clock_gettime"}}; auto it=m.find(nr); return it==m.end()?"?":it->second; }
static u64 g_textlo,g_texthi;
static map<u64,u64> g_sites;
static void resume(ucontext_t*u){ // after the event for cur: schedule, deliver, write back
  while(1){ if(!schedule()) finish("end");
    if(cur->pending&~cur->blocked||(cur->pending>>(SIGKILL-1))&1){ map_proc(cur); if(!deliver(cur)) continue; }
    break; }
  map_proc(cur); if(cur->steps_left&&cur->stepping) cur->regs.g[REG_EFL]|=0x100; else cur->regs.g[REG_EFL]&=~0x100; ctx_store(u,cur); }
static void on_sigsys(int,siginfo_t*si,void*uc){
  ucontext_t*u=(ucontext_t*)uc; Proc*p=cur; ctx_load(u,p); p->regs.g[REG_EFL]&=~0x100; g_regs=&p->regs; long nr=si->si_syscall; greg_t*g=p->regs.g;
  g_seq++; p->nsys++; if(g_seq>g_maxsys) finish("limit");
  p->nr=nr; p->a[0]=g[REG_RDI]; p->a[1]=g[REG_RSI]; p->a[2]=g[REG_RDX]; p->a[3]=g[REG_R10]; p->a[4]=g[REG_R8]; p->a[5]=g[REG_R9]; p->cur_seq=g_seq; p->wprog=0; p->retrying=false; p->wake_at=0;
  u64 tick=g_tick; if(g_jitter) tick=1+mix(g_seed*7+g_seq)%(2*g_tick); advance(tick);
  check_async();
  g[REG_RCX]=0; g[REG_R11]=0x202;   // clobbered by the instruction; made deterministic
  if(g_logclk) g_events.push_back("clk "+to_string(p->pid)+" "+to_string(nr)+" "+to_string(g_mono)+" "+to_string((i64)wall())+" "+to_string(p->cputime));
  i64 r=do_sys(nr,p->a);
  hashin(nr*1000003ULL+p->pid); hashin((u64)r);
  g_pathhash=mix(g_pathhash^(nr*64+(r<0&&r>-4096?-r:(r==BLOCK||r==GONE)?63:0))^((u64)p->pid<<32));
  if(g_trace){ char b[256]; snprintf(b,sizeof b,"%llu pid=%d %s(%ld) %llx %llx %llx = %s",(unsigned long long)g_seq,p->pid,sysname(nr),nr,(unsigned long long)p->a[0],(unsigned long long)p->a[1],(unsigned long long)p->a[2],r==BLOCK?"BLOCK":r==GONE?"-":to_string(r).c_str()); string x=b; if(curpath.size()) x+=" "+enc(curpath); g_tracev.push_back(x); }
  if(r!=BLOCK&&r!=GONE&&g_logsys.count(nr)) g_events.push_back("sys "+to_string(p->pid)+" "+to_string(nr)+" "+to_string(r));
  if(r==BLOCK){ p->state=BLOCKED; p->retrying=true; }
  else if(r!=GONE) g[REG_RAX]=r;
  i64 v; if(p->state==RUN&&decide_val("step_signal",v)){ p->steps_left=(u64)(v>>8); p->stepping=p->steps_left>0; p->sig_sys_at=v&255; if(!p->stepping) async_send(p,v&255); }
  resume(u); }
static void on_trap(int,siginfo_t*,void*uc){ ucontext_t*u=(ucontext_t*)uc; u64 rip=u->uc_mcontext.gregs[REG_RIP]; if(rip>=g_textlo&&rip<g_texthi){ u->uc_mcontext.gregs[REG_EFL]&=~0x100; return; } Proc*p=cur; if(!p->stepping){ u->uc_mcontext.gregs[REG_EFL]&=~0x100; return; }
  if(--p->steps_left==0){ ctx_load(u,p); p->regs.g[REG_EFL]&=~0x100; p->stepping=false; async_send(p,(int)p->sig_sys_at); g_fired["async_signal"]++; hashin(rip); resume(u); } }
static void on_fault(int sig,siginfo_t*si,void*uc){
  ucontext_t*u=(ucontext_t*)uc; u64 rip=u->uc_mcontext.gregs[REG_RIP];
  if(rip>=g_textlo&&rip<g_texthi){ static const char m[]="simrun: internal fault\n"; if(write(2,m,sizeof m-1)){} _exit(4); }
  Proc*p=cur; ctx_load(u,p); p->regs.g[REG_EFL]&=~0x100; g_regs=&p->regs; (void)si; hashin(rip); g_events.push_back("fault "+to_string(p->pid)+" "+to_string(sig));
  if(getenv("SIM_DUMPRIP")){ fprintf(stderr,"fault sig %d rip=%llx addr=%p rsp=%llx\n",sig,(unsigned long long)rip,si->si_addr,(unsigned long long)u->uc_mcontext.gregs[REG_RSP]); u64 sp=u->uc_mcontext.gregs[REG_RSP]; if(valid(sp,256,false)) for(int i=0;i<32;i++) fprintf(stderr," %llx",(unsigned long long)((u64*)sp)[i]); fprintf(stderr,"\n"); }
  if(p->sa[sig].handler<=1||(p->blocked>>(sig-1))&1||!valid(p->regs.g[REG_RSP]-1024,1024,true)) proc_exit(p,sig); else p->pending|=1ULL<<(sig-1);
  resume(u); }
static void on_prof(int,siginfo_t*,void*uc){ ucontext_t*u=(ucontext_t*)uc; u64 rip=u->uc_mcontext.gregs[REG_RIP]; if(rip>=g_textlo&&rip<g_texthi) return; finish("hang"); }

// ---------------------------------------------------------------- main
extern "C" char __executable_start, etext;
static void enter(Proc*p){ // jump into the first guest instruction by returning from a signal
  (void)p; asm volatile("int3"); }
static bool g_entered=false;
static void on_int3(int s,siginfo_t*si,void*uc){ if(!g_entered){ g_entered=true; ucontext_t*u=(ucontext_t*)uc; map_proc(cur); ctx_store(u,cur); return; } if(si->si_code==TRAP_TRACE||si->si_code==TRAP_BRKPT||si->si_code==SI_KERNEL){ ucontext_t*u=(ucontext_t*)uc; if(cur->stepping||(u->uc_mcontext.gregs[REG_EFL]&0x100)) { on_trap(s,si,uc); return; } on_fault(SIGTRAP,si,uc); return; } on_trap(s,si,uc); }

static vector<string> g_dump; static vector<string> g_argv,g_envp; static string g_exe; static string g_cwd="/"; static map<int,string> g_fdspec; static vector<string> g_mem;
static void g_dumpall_add(const string&);
static void parse(const char*file){
  string txt; { int fd=open(file,O_RDONLY); if(fd<0) die(string("cannot open ")+file); char b[65536]; ssize_t n; while((n=read(fd,b,sizeof b))>0) txt.append(b,n); close(fd); }
  g_root=mk(T_DIR,0755); g_root->parent=nullptr;
  for(auto&line:split(txt,'\n')){ auto w=split(line); if(w.empty()||w[0][0]=='#') continue; const string&k=w[0]; auto arg=[&](size_t i){ return i<w.size()?undec(w[i]):string(); };
    if(k=="seed") g_seed=strtoull(w[1].c_str(),0,10); else if(k=="listmode") g_listmode=true; else if(k=="trace") g_trace=true;
    else if(k=="dec") g_declist[{strtoull(w[1].c_str(),0,10),w[2]}]=atoll(w[3].c_str());
    else if(k=="exe") g_exe=arg(1); else if(k=="arg") g_argv.push_back(arg(1)); else if(k=="env") g_envp.push_back(arg(1)); else if(k=="cwd") g_cwd=arg(1);
    else if(k=="maxsys") g_maxsys=strtoull(w[1].c_str(),0,10); else if(k=="cpu") g_cpulimit=atoi(w[1].c_str());
    else if(k=="brklimit") g_brklimit=atoll(w[1].c_str()); else if(k=="brkoff") g_brkoff=atoll(w[1].c_str())*16; else if(k=="stkoff") g_stkoff=atoll(w[1].c_str())*16; else if(k=="fill") g_fill=atoi(w[1].c_str()); else if(k=="maxfd") g_maxfd=atoi(w[1].c_str()); else if(k=="stack") STKSZ=(atoll(w[1].c_str())+4095)&~4095ull;
    else if(k=="wall") g_wall_off=atoll(w[1].c_str()); else if(k=="tick") g_tick=atoll(w[1].c_str()); else if(k=="nojitter") g_jitter=false; else if(k=="logclk") g_logclk=true; else if(k=="logwait") g_logwait=true; else if(k=="logsys"){ for(auto&x:split(w[1],',')) g_logsys.insert(atol(x.c_str())); } else if(k=="pidrand") g_pidrand=true; else if(k=="safesig") g_safesig=true; else if(k=="pid0") g_nextpid=atoi(w[1].c_str()); else if(k=="gc") g_gctable=w[1]; else if(k=="pipecap") g_pipecap=atoi(w[1].c_str()); else if(k=="disk") g_disk_free=atoll(w[1].c_str()); else if(k=="maxprocs") g_maxprocs=atoll(w[1].c_str());
    else if(k=="tree"){ auto pp=parent_of(arg(1)); Inode*d=mk(T_DIR,0755); d->host=arg(2); d->loaded=false; d->ro=w.size()>3&&w[3]=="ro"; link_in(pp.first,pp.second,d); }
    else if(k=="hostfile"){ auto pp=parent_of(arg(1)); Inode*i=mk(T_REG,strtol(w[3].c_str(),0,8)); i->host=arg(2); i->loaded=false; link_in(pp.first,pp.second,i); }
    else if(k=="file"){ auto pp=parent_of(arg(1)); Inode*i=mk(T_REG,strtol(w[2].c_str(),0,8)); i->data=arg(3); link_in(pp.first,pp.second,i); }
    else if(k=="owner"){ Look L; cur=new Proc; L=walk(g_root,arg(1),false); delete cur; cur=nullptr; if(L.ino){ L.ino->uid=atoi(w[2].c_str()); L.ino->gid=atoi(w[3].c_str()); if(w.size()>4) L.ino->mode=strtol(w[4].c_str(),0,8); } }
    else if(k=="rofs"){ cur=new Proc; Look L=walk(g_root,arg(1),false); delete cur; cur=nullptr; if(L.ino) L.ino->ro=true; }
    else if(k=="dir"){ Inode*d=mkdirp(arg(1)); d->mode=strtol(w[2].c_str(),0,8); }
    else if(k=="symlink"){ auto pp=parent_of(arg(1)); Inode*i=mk(T_LNK,0777); i->target=arg(2); link_in(pp.first,pp.second,i); }
    else if(k=="stub"){ auto pp=parent_of(arg(1)); Inode*i=mk(T_REG,0755); i->stub=new Stub; i->stub->kind=w[2]; for(size_t j=3;j<w.size();j++) i->stub->args.push_back(w[j]); link_in(pp.first,pp.second,i); }
    else if(k=="dev"){ auto pp=parent_of(arg(1)); Inode*i=mk(T_CHR,0666); i->chr=w[2]; i->dirty=false; if(w[2]=="sink"||w[2]=="tty"){ i->quota=w.size()>3?atoll(w[3].c_str()):-1; i->rdev=w.size()>4?atoll(w[4].c_str()):0; i->dirty=true; } link_in(pp.first,pp.second,i); }
    else if(k=="stream"){ auto pp=parent_of(arg(1)); Inode*i=mk(w[2]=="tty"?T_CHR:T_FIFO,0666); if(w[2]=="fifo") i->chr="stream"; else i->chr="tty"; i->stream=new Stream; i->stream->tty=w[2]=="tty"; link_in(pp.first,pp.second,i); }
    else if(k=="chunk"){ auto pp=parent_of(arg(1)); Inode*i=pp.first->kids[pp.second]; Chunk c; c.wait_out=atoll(w[2].c_str()); c.delay=strtoull(w[3].c_str(),0,10); string t=w[4]; if(t=="eof") c.eof=true; else if(t=="hold") c.hold=true; else if(t=="err") c.err=atoll(w[5].c_str()); else c.data=arg(5); i->stream->ch.push_back(c); }
    else if(k=="fd"){ g_fdspec[atoi(w[1].c_str())]=arg(2)+" "+(w.size()>3?w[3]:"0"); }
    else if(k=="dumpall") g_dumpall_add(arg(1));
    else if(k=="uid") { /* handled below */ g_mem.push_back(line); }
    else if(k=="dump") g_dump.push_back(arg(1));
    else if(k=="resbuf"||k=="sigaction"||k=="ignsig") g_mem.push_back(line);
    else if(k=="rule"){ Rule r; r.kind=w[1]; for(size_t i=2;i<w.size();i++){ auto e=w[i].find('='); string n=w[i].substr(0,e),x=w[i].substr(e+1); if(n=="ppm") r.ppm=atoll(x.c_str()); else if(n=="vals"){ for(auto&q:split(x,',')) r.vals.push_back(atoll(q.c_str())); } else if(n=="path") r.path=undec(x); else if(n=="exe") r.exe=undec(x); else if(n=="fd") r.fd=atoi(x.c_str()); else if(n=="pid") r.pid=atoll(x.c_str()); else if(n=="max") r.max=atoll(x.c_str()); else if(n=="after") r.after=atoll(x.c_str()); else if(n=="until") r.until=atoll(x.c_str()); else if(n=="nth") r.nth=atoll(x.c_str()); else if(n=="nr") r.nr=atoll(x.c_str()); else if(n=="not") r.notnr=atoll(x.c_str()); else die("rule key "+n); } g_rules.push_back(r); }
    else die("unknown scenario key "+k); } }

static vector<string> g_dumpall;
static void g_dumpall_add(const string&s){ g_dumpall.push_back(s); }
static void dump_tree(Inode*i,const string&path,FILE*o){ bool all=false; for(auto&d:g_dumpall) if(path.compare(0,d.size(),d)==0) all=true; if(all&&i->host.empty()) i->dirty=true; if(i->type==T_DIR){ if(path!="/"&&i->dirty) fprintf(o,"dir %s %o %u %u\n",enc(path).c_str(),i->mode,i->uid,i->gid); for(auto&k:i->kids) dump_tree(k.second,(path=="/"?"":path)+"/"+k.first,o); }
  else if(i->type==T_LNK){ fprintf(o,"link %s %s\n",enc(path).c_str(),enc(i->target).c_str()); }
  else if(i->dirty||i->chr=="sink"){ if(i->type==T_REG||i->chr=="sink"||i->chr=="tty") fprintf(o,"file %s %o %u %u %u %s\n",enc(path).c_str(),i->mode,i->uid,i->gid,i->nlink,i->data.empty()?"-":("."+enc(i->data)).c_str()); else fprintf(o,"node %s %d %o\n",enc(path).c_str(),i->type,i->mode); } }

int main(int argc,char**argv){
  if(argc<2) die("usage: simrun SCENARIO"); parse(argv[1]);
  g_textlo=(u64)&__executable_start; g_texthi=((u64)&etext+4095)&~4095ULL;
  Proc*p=new Proc; cur=p; p->pid=g_nextpid++; p->ppid=1; p->pgid=p->pid; P[p->pid]=p; g_initpid=p->pid;
  g_mono=1000000000ULL*1000; g_start=g_mono;
  p->cwd=mkdirp(g_cwd);
  for(auto&l:g_mem){ auto w=split(l); if(w[0]=="uid"){ p->uid=p->euid=atoi(w[1].c_str()); p->gid=p->egid=atoi(w[2].c_str()); } else if(w[0]=="ignsig") p->sa[atoi(w[1].c_str())].handler=1; }
  { u32 e=p->euid; p->euid=0; for(auto&k:g_fdspec){ auto w=split(k.second); OpenFile*f=new OpenFile; Look L=walk(g_root,w[0],true); if(!L.ino) die("fd target "+w[0]); f->ino=L.ino; L.ino->refs++; f->flags=atoi(w[1].c_str()); f->path=w[0]; f->refs=1; p->fds[k.first]={f,0}; } p->euid=e; }
  Look L=walk(g_root,g_exe,true); if(!L.ino) die("exe not found "+g_exe); load(L.ino);
  u64 resaddr=0,resn=0;
  for(auto&l:g_mem){ auto w=split(l); if(w[0]=="resbuf"){ // argument number and size: replaced by a writable buffer of that many '.' characters
      resn=atoll(w[2].c_str()); size_t ai=atoi(w[1].c_str()); if(ai<g_argv.size()) g_argv[ai]=string(resn,'.'); } }
  p->exe=g_exe; int r=load_elf(p,L.ino->data,g_argv,g_envp); if(r) die("load_elf "+to_string(r));
  if(resn){ u64 sp=p->regs.g[REG_RSP]; for(auto&l:g_mem){ auto w=split(l); if(w[0]=="resbuf") resaddr=((u64*)sp)[1+atoi(w[1].c_str())]; } }
  static char alt[1<<20]; stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sigemptyset(&sa.sa_mask); sigaddset(&sa.sa_mask,SIGPROF); sa.sa_flags=SA_SIGINFO|SA_ONSTACK; sa.sa_sigaction=on_sigsys; sigaction(SIGSYS,&sa,0); sa.sa_sigaction=on_fault; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL}) sigaction(s,&sa,0); sa.sa_sigaction=on_int3; sigaction(SIGTRAP,&sa,0); sa.sa_sigaction=on_prof; sigaction(SIGPROF,&sa,0);
  struct itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=g_cpulimit; it.it_interval.tv_usec=100000; setitimer(ITIMER_PROF,&it,0);
  struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
  static volatile char sel=1; // SYSCALL_DISPATCH_FILTER_BLOCK
  if(sigsetjmp(g_done,1)==0){ if(prctl(PR_SET_SYSCALL_USER_DISPATCH,1,g_textlo,g_texthi-g_textlo,&sel)) die("syscall user dispatch not available"); enter(p); }
  memset(&it,0,sizeof it); setitimer(ITIMER_PROF,&it,0); prctl(PR_SET_SYSCALL_USER_DISPATCH,0,0,0,0);
  Proc*m=P[g_initpid]; FILE*o=stdout; static char obuf[1<<20]; setvbuf(o,obuf,_IOFBF,sizeof obuf);
  string end; if(g_endkind=="end"){ if(m->status&127) end="signal "+to_string(m->status&127); else end="exit "+to_string((m->status>>8)&255); } else end=g_endkind+" 0";
  fprintf(o,"end %s\n",end.c_str());
  for(auto&e:g_events) fprintf(o,"event %s\n",e.c_str());
  if(resn&&m->memfd>=0){ string b(resn,0); if(pread(m->memfd,&b[0],resn,off_of(resaddr))==(ssize_t)resn){ size_t z=b.find_last_not_of('.'); b.resize(z==string::npos?0:z+1); fprintf(o,"res .%s\n",enc(b).c_str()); hashin(hstr(b)); } }
  for(auto&k:g_fdspec){ auto w=split(k.second); Look L2=walk(g_root,w[0],true); if(L2.ino&&(L2.ino->chr=="sink"||L2.ino->chr=="tty"||L2.ino->type==T_REG)) L2.ino->dirty=true; }
  cur=m; dump_tree(g_root,"/",o);
  for(auto&d:g_decs) fprintf(o,"dec %llu %s %lld\n",(unsigned long long)d.seq,d.kind.c_str(),(long long)d.val);
  for(auto&f:g_fired) fprintf(o,"fired %s %llu\n",f.first.c_str(),(unsigned long long)f.second);
  fprintf(o,"stat syscalls %llu\nstat simns %llu\nstat switches %llu\nstat procs %zu\nstat brkmax %llu\nstat brkend %llu\nstat gcset %d\nstat pathhash %llx\n",(unsigned long long)g_seq,(unsigned long long)(g_mono-g_start),(unsigned long long)g_switches,P.size(),(unsigned long long)(m->brkmax-m->brk0),(unsigned long long)m->brkmax,(int)m->gcset,(unsigned long long)g_pathhash);
  if(m->gcset&&m->memfd>=0){ u64 a=0; i64 v=0; if(pread(m->memfd,&a,8,off_of(m->gcsym))==8&&a&&pread(m->memfd,&v,8,off_of(a))==8) fprintf(o,"stat gcnext %lld\n",(long long)v); }
  for(auto&k:P) if(k.second->state<ZOMBIE&&k.second!=m) fprintf(o,"left %d\n",k.first);
  for(auto&t:g_tracev) fprintf(o,"trace %s\n",t.c_str());
  fprintf(o,"hash %llx\n",(unsigned long long)g_hash); fflush(o); _exit(0); }
