// minimal in-process tree: leaf nodes with scripted results
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/NodeNursery.h>
#include <MEQ/MeqVocabulary.h>
#include <MEQ/Request.h>
#include <MEQ/Result.h>
#include <MEQ/VellSet.h>
#include <MEQ/Cells.h>
#include <MEQ/Domain.h>
#include <MEQ/MTPool.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/List.h>
#include <map>
#include <string>
#include <cstdio>
#include <unistd.h>
using namespace Meq;
using namespace DMI;
struct Leaf : public Meq::Node
{
  static std::map<std::string,int> runs;       // executions per leaf
  static std::map<std::string,char> kind;      // 'o' ok, 'f' fail, 'm' missing, 'a' abort
  static void (*hook) (Leaf &,bool newreq);
  virtual TypeId objectType () const { return TypeId(-99001); }
  virtual int getResult (Result::Ref &ref,const std::vector<Result::Ref> &,const Request &req,bool newreq)
  {
    runs[name()]++;
    if( hook ) (*hook)(*this,newreq);
    char k = kind.count(name()) ? kind[name()] : 'o';
    if( k == 'f' )
      Throw("scripted fail");
    if( k == 'a' )
      return RES_ABORT;
    Result & res = ref <<= new Result(1);
    VellSet & vs = res.setNewVellSet(0);
    vs.setValue(new Vells(1.0));
    if( k == 'm' )
    { res.setVellSet(0,new VellSet); return RES_MISSING; }
    return 0;
  }
};
void (*Leaf::hook) (Leaf &,bool) = 0;
std::map<std::string,int> Leaf::runs;
std::map<std::string,char> Leaf::kind;
struct Par : public Leaf
{
  virtual TypeId objectType () const { return TypeId(-99002); }
  virtual int getResult (Result::Ref &ref,const std::vector<Result::Ref> &ch,const Request &req,bool n)
  { return Leaf::getResult(ref,ch,req,n); }
};
static DMI::BObj * mkLeaf (int n) { return n>0 ? new Leaf[n] : new Leaf; }
static DMI::BObj * mkPar (int n) { return n>0 ? new Par[n] : new Par; }
static int regs = AtomicID::registerId(-99001,"DemoLeaf") + TypeInfoReg::addToRegistry(-99001,TypeInfo(TypeInfo::DYNAMIC,0)) + DynamicTypeManager::addToRegistry(-99001,mkLeaf)
  + AtomicID::registerId(-99002,"DemoPar") + TypeInfoReg::addToRegistry(-99002,TypeInfo(TypeInfo::DYNAMIC,0)) + DynamicTypeManager::addToRegistry(-99002,mkPar);
static void setvec (DMI::Record &rec,const char *f,const std::vector<int> &v)
{ DMI::Vec *p = new DMI::Vec(Tpint,v.size(),&v[0]); rec[f] <<= p; }
static NodeFace & mk (Forest &forest,const char *cls,const std::string &name,const std::vector<int> &kids = std::vector<int>(),
                      const std::vector<int> &step = std::vector<int>(),void (*more)(DMI::Record &)=0)
{
  DMI::Record::Ref rec(DMI::ANONWR);
  rec["Class"] = std::string(cls); rec["Name"] = name;
  if( kids.size() ) setvec(rec(),"Children",kids);
  if( step.size() ) setvec(rec(),"Step.Children",step);
  if( more ) more(rec());
  int ix; return forest.create(ix,rec);
}
static Request::Ref mkreq (const char *id,int n=2)
{
  return Request::Ref(new Request(Cells(Domain(0,1,0,1),n,n),HIID(id)));
}
#define CHECK(c) do { if( !(c) ) { printf("FAILED line %d: %s\n",__LINE__,#c); fflush(stdout); _exit(1); } } while(0)
static int demo ();
int main ()
{
  alarm(60);
  try { int r = demo(); fflush(stdout); _exit(r); }
  catch( std::exception &e ) { printf("exception: %s\n",exceptionToString(e).c_str()); fflush(stdout); _exit(2); }
}
