exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P12"
EDITS = [("DMI/src/Record.cc", "  FailWhen( hsize < off_hids,\"malformed header block\" );", "  FailWhen( hsize < sizeof(BlockFieldInfo)*nfields,\"malformed header block\" );")]
NEEDS = "a record header block that is too short for its field table by less than the size of the fixed header"
BREAKS = "the field table of a record is read past the end of a truncated header block"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % ""
FILES = {"demo.cc": r"""
#include <DMI/Record.h>
#include <DMI/Vec.h>
#include <DMI/BlockSet.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdio.h>
#include <string.h>
using namespace DMI;
int main ()
{
  alarm(60);
  Record rec;
  rec["A"] = 1;
  BlockSet set; rec.toBlock(set);
  BlockRef head; set.pop(head);
  size_t sz = head->size();
  // the block ends where the mapped memory ends
  size_t pg = sysconf(_SC_PAGESIZE);
  char *mem = static_cast<char*>(mmap(0,3*pg,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0));
  mprotect(mem+2*pg,pg,PROT_NONE);
  bool ok = true;
  for( size_t cut = 0; cut<=sz; cut += 2 )
  {
    char *p = mem + 2*pg - (sz-cut);
    memcpy(p,head->data(),sz-cut);
    BlockSet in; in.pushNew() <<= new SmartBlock(p,sz-cut,DMI::EXTERNAL);
    BlockSet rest = set;
    while( rest.size() ) { BlockRef b; rest.pop(b); in.push(b); }
    bool thrown = false;
    try { Record out; out.fromBlock(in); } catch( std::exception & ) { thrown = true; }
    ok = ok && thrown == (cut != 0);
  }
  printf(ok ? "ok\n" : "a truncated header was accepted\n");
  return ok ? 0 : 1;
}
"""}
