exec(open('/verif/tools_dev/seeds/common.py').read())
PROP = "P02"
EDITS = [("MEQ/src/RequestId.cc", "        m1 < (1<<RQIDM_NBITS) && (iter1 != id1.end() || iter2 != id2.end()); \n        m1<<=1 )\n  {\n    // once we run out of indices in either ID, assume 0\n    AtomicID x1 = iter1 != id1.end() ? *(iter1++) : AtomicID(0);\n    AtomicID x2 = iter2 != id2.end() ? *(iter2++) : AtomicID(0);\n    if( x1 != x2 )\n      mask",
 "        m1 < (1<<RQIDM_NBITS) && iter1 != id1.end(); \n        m1<<=1 )\n  {\n    // once we run out of indices in either ID, assume 0\n    AtomicID x1 = iter1 != id1.end() ? *(iter1++) : AtomicID(0);\n    AtomicID x2 = iter2 != id2.end() ? *(iter2++) : AtomicID(0);\n    if( x1 != x2 )\n      mask")]
NEEDS = "a request whose id is shorter than that of the cached request and agrees with it in all its components"
BREAKS = "components present only in the cached id are ignored, so a result for another domain is reused"
COMMON = ["meqdemo.h", "cc.sh"]
DEMO = DEMO % "-lmeq"
FILES = {"demo.cc": r'''
#include "meqdemo.h"
static int demo ()
{
  CHECK(RqId::diffMask(HIID("a.b.c"),HIID("a.b.c"))==0);
  CHECK(RqId::diffMask(HIID("a.b.c"),HIID("a.b"))==4);
  CHECK(RqId::diffMask(HIID("a.b"),HIID("a.b.c"))==4);
  CHECK(RqId::diffMask(HIID("a.b.0"),HIID("a.b"))==0);
  CHECK(RqId::diffMask(HIID("a.b"),HIID("x.b.c.d"))==13);
  printf("ok\n");
  return 0;
}
'''}
