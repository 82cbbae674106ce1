// How redis keys and fields are laid out in the ordered key-value store.
#include "sym.hh"
#include "storage/KeyDescriptor.hh"
#include "storage/KeyLocators.hh"
#include "storage/ReverseLocator.hh"
#include "storage/PatternMatching.hh"
#include "StringMatchLen.h"
using namespace quarkdb;
#ifndef KL
#define KL 2
#endif
#ifndef FL
#define FL 2
#endif
static KeyType pickType(){ static const KeyType t[]={KeyType::kHash,KeyType::kSet,KeyType::kDeque,KeyType::kVersionedHash}; return t[sym::choose("type",4)]; }
static bool startsWith(std::string_view s,std::string_view p){ return s.size()>=p.size()&&sym::eq(s.substr(0,p.size()),p); }
// key and field are recovered exactly from an entry
static void roundtrip(bool tailBar){
  KeyType t=pickType(); std::string key=sym::str("key",1,KL), field=sym::str("field",1,FL);
  if(tailBar){ sym_assume(key[key.size()-1]=='|'); sym_assume(field[0]=='#'); } else sym_assume(sym::implies(key[key.size()-1]=='|',field[0]!='#'));
  FieldLocator loc(t,key,field); std::string enc(loc.toView()); CHECK(startsWith(enc,loc.getPrefix())&&loc.getPrefixSize()==loc.getPrefix().size(),"an entry starts with its key prefix");
  ReverseLocator r{std::string_view(enc)}; CHECK(r.getKeyType()==t,"key type is recovered"); std::string k(r.getOriginalKey()), f(r.getField());
  CHECK(k.size()==key.size()&&sym::eq(k,key),"key is recovered"); CHECK(f.size()==field.size()&&sym::eq(f,field),"field is recovered"); CHECK(sym::eq(r.getRawPrefixUntilBoundary(),loc.getPrefix()),"prefix is recovered"); sym_reach("end");
}
HARNESS(key_roundtrip){ roundtrip(false); }
HARNESS(kf_key_roundtrip){ roundtrip(true); }
HARNESS(loc_roundtrip){
  std::string key=sym::str("key",1,KL), hint=sym::str("hint",1,FL), field=sym::str("field",1,1); sym_assume(sym::implies(hint[hint.size()-1]=='|',field[0]!='#'));
  LocalityFieldLocator d(key,hint,field); std::string enc(d.toView()); ReverseLocator r{std::string_view(enc)}; CHECK(r.getKeyType()==KeyType::kLocalityHash,"key type is recovered"); CHECK(!r.isLocalityIndex(),"locality data is recognised as data"); std::string k(r.getOriginalKey()); CHECK(sym::eq(k,key),"key is recovered");
  std::string rest(r.getField()); CHECK(rest[0]=='d',"locality data has its marker"); EscapedPrefixExtractor e; CHECK(e.parse(std::string_view(rest).substr(1)),"hint is recovered"); CHECK(sym::eq(e.getOriginalPrefix(),hint),"hint is recovered"); CHECK(sym::eq(e.getRawSuffix(),field),"field is recovered");
  LocalityIndexLocator ix(key,field); std::string ie(ix.toView()); ReverseLocator ri{std::string_view(ie)}; CHECK(ri.isLocalityIndex(),"locality index is recognised as index"); CHECK(sym::eq(ri.getOriginalKey(),key)&&sym::eq(ri.getField().substr(1),field),"indexed field is recovered");
  CHECK(!sym::eq(enc,ie),"locality data and index never collide");
  LocalityFieldLocator p(key,hint); CHECK(startsWith(enc,p.toView()),"an entry starts with its hint prefix"); LocalityFieldLocator kp(key); CHECK(startsWith(enc,kp.getPrefix()),"an entry starts with its key prefix"); sym_reach("end");
}
// entries of different keys never mix: no entry of one key lies under the prefix of another
static void isolation(bool tailBar){
  KeyType t1=pickType(), t2=t1; if(sym::flip("othertype")) t2=KeyType::kSet; std::string k1=sym::str("k1",1,KL), k2=sym::str("k2",1,KL), f=sym::str("f",0,FL);
  bool same=sym::eq(k1,k2); sym_assume(sym_or(!(t1==t2),sym_not(same))); 
  // the escaping is ambiguous when a key ends with '|' or when a key ends with '|' and the field starts with '#' (known finding)
  bool amb=sym_or(k1[k1.size()-1]=='|',f.empty()?false:sym_and(k2[k2.size()-1]=='|',f[0]=='#')); if(tailBar) sym_assume(sym_and(amb,t1==t2)); else sym_assume(sym_not(amb));
  FieldLocator a(t1,k1), b(t2,k2,f); CHECK(!startsWith(b.toView(),a.getPrefix()),"an entry never lies under the prefix of a different key"); sym_reach("end");
}
HARNESS(key_isolation){ isolation(false); }
HARNESS(kf_key_isolation){ isolation(true); }
HARNESS(loc_isolation){
  std::string k1=sym::str("k1",1,KL), k2=sym::str("k2",1,KL), h1=sym::str("h1",1,KL), h2=sym::str("h2",1,KL); sym_assume(sym_not(sym_and(sym::eq(k1,k2),sym::eq(h1,h2)))); sym_assume(sym_and(k1[k1.size()-1]!='|',h1[h1.size()-1]!='|')); sym_assume(sym::implies(k2[k2.size()-1]=='|',false)); sym_assume(h2[h2.size()-1]!='|');
  LocalityFieldLocator a(k1,h1), b(k2,h2,"f"); CHECK(!startsWith(b.toView(),a.toView()),"an entry never lies under the prefix of a different hint"); 
  LocalityIndexLocator i(k1); CHECK(!startsWith(b.toView(),i.toView()),"locality data never lies under an index prefix"); sym_reach("end");
}
// the flat kinds: first byte separates, the rest is the key
HARNESS(key_flat){
  std::string k=sym::str("k",0,3), j=sym::str("j",0,3); DescriptorLocator d(k), d2(j); StringLocator s(k), s2(j); LeaseLocator l(k), l2(j); ConfigurationLocator c(k), c2(j);
  bool same=sym::eq(k,j); std::string_view va[]={d.toView(),s.toView(),l.toView(),c.toView()}, vb[]={d2.toView(),s2.toView(),l2.toView(),c2.toView()};
  for(int i=0;i<4;i++) for(int m=0;m<4;m++) CHECK(sym::eq(va[i],vb[m])==(i==m&&same),"entries of different kinds or keys are different");
  CHECK(sym::eq(s.toView().substr(1),k),"string entry ends with its key"); ReverseLocator r(s.toView()); CHECK(r.getKeyType()==KeyType::kString&&sym::eq(r.getOriginalKey(),k),"string key is recovered");
  for(int i=0;i<4;i++){ char f=va[i][0]; CHECK(f!='_',"user data never shares its first byte with internal records"); } 
  bool lt=std::string_view(k)<std::string_view(j); CHECK((d.toView()<d2.toView())==lt,"descriptors are ordered by key"); sym_reach("end");
}
// expiration events are ordered by deadline first
HARNESS(key_expiry_order){
  uint64_t t1=sym_u64("t1"), t2=sym_u64("t2"); std::string k1=sym::str("k1",1,2), k2=sym::str("k2",1,2); ExpirationEventLocator a(t1,k1), b(t2,k2); std::string ea(a.toView()), eb(b.toView());
  sym_assume(t1!=t2); bool lt=memcmp(ea.data(),eb.data(),9)<0; CHECK(lt==(t1<t2),"expiration events sort by deadline"); CHECK(ea.size()==9+k1.size()&&sym::eq(std::string_view(ea).substr(9),k1),"expiration event carries its key"); CHECK(binaryStringToUnsignedInt(ea.data()+1)==t1,"expiration event carries its deadline"); sym_reach("end");
}
HARNESS(int_order){
  uint64_t a=sym_u64("a"), b=sym_u64("b"); std::string x=unsignedIntToBinaryString(a), y=unsignedIntToBinaryString(b); CHECK(binaryStringToUnsignedInt(std::string_view(x))==a,"unsigned integer survives"); int c=memcmp(x.data(),y.data(),8); CHECK((c<0)==(a<b),"encoded integers sort like the integers"); CHECK((c==0)==(a==b),"encoded integers are equal exactly when the integers are");
  int64_t s=(int64_t)sym_u64("s"); std::string z=intToBinaryString(s); CHECK(z.size()==8&&binaryStringToInt(std::string_view(z))==s,"signed integer survives"); char buf[8]; intToBinaryString(s,buf); CHECK(binaryStringToInt(buf)==s,"signed integer survives in a buffer"); unsignedIntToBinaryString(a,buf); CHECK(binaryStringToUnsignedInt(buf)==a,"unsigned integer survives in a buffer"); sym_reach("end");
}
HARNESS(descriptor_roundtrip){
  static const KeyType t[]={KeyType::kString,KeyType::kSet,KeyType::kHash,KeyType::kLocalityHash,KeyType::kDeque,KeyType::kLease,KeyType::kVersionedHash}; KeyType k=t[sym::choose("type",7)]; int64_t sz=(int64_t)sym_u64("size"); uint64_t st=sym_u64("start"), en=sym_u64("end");
  KeyDescriptor d; CHECK(d.empty(),"a fresh descriptor is empty"); d.setKeyType(k); d.setSize(sz); bool idx=k==KeyType::kDeque||k==KeyType::kLease; if(idx||k==KeyType::kVersionedHash) d.setStartIndex(st); if(idx){ d.setEndIndex(en); sym_assume(st<=en); }
  std::string s(d.serialize()); KeyDescriptor e{std::string_view(s)}; CHECK(e.getKeyType()==k&&!e.empty(),"descriptor keeps its type"); CHECK(e.getSize()==sz,"descriptor keeps its size"); if(idx||k==KeyType::kVersionedHash) CHECK(e.getStartIndex()==st,"descriptor keeps its start index"); if(idx) CHECK(e.getEndIndex()==en,"descriptor keeps its end index"); CHECK(d==e,"descriptor equals what was stored"); sym_reach("end");
}
// locators can be reused for other keys and fields of any size without reading or writing outside their buffer
HARNESS(locator_reuse){
  static const unsigned ks[]={1,509,510,530}; static const unsigned fs[]={0,1,3,600}; KeyType t=KeyType::kHash; unsigned n=ks[sym::choose("k0",4)]; std::string key(n,'k'); key[0]=(char)sym_u8("c"); bool hash=sym::flip("hash"); if(hash) key[n-1]='#';
  FieldLocator loc(t,key); 
  for(int i=0;i<2;i++){ std::string f(fs[sym::choose("f",4)],'f'); if(f.size()) f[0]=(char)sym_u8("fc"); loc.resetField(f); std::string_view v=loc.toView(); CHECK(v.size()==loc.getPrefixSize()+f.size(),"reused locator has the right size"); CHECK(v[0]=='b'&&sym::eq(v.substr(loc.getPrefixSize()),f),"reused locator ends with the new field"); FieldLocator fresh(t,key,f); CHECK(sym::eq(fresh.toView(),v),"reused locator equals a fresh one"); }
  std::string key2(ks[sym::choose("k1",4)],'q'); loc.resetKey(t,key2); FieldLocator f2(t,key2); CHECK(sym::eq(loc.getPrefix(),f2.getPrefix()),"reused locator equals a fresh one for another key"); sym_reach("end");
}
HARNESS(locator_reuse_loc){
  static const unsigned ks[]={1,508,510}; static const unsigned fs[]={1,2,520}; std::string key(ks[sym::choose("k",3)],'k'); key[0]=(char)sym_u8("c"); LocalityFieldLocator loc(key);
  for(int i=0;i<2;i++){ std::string h(fs[sym::choose("h",3)],'h'), f(fs[sym::choose("f",3)],'f'); h[0]=(char)sym_u8("hc"); loc.resetHint(h); loc.resetField(f); LocalityFieldLocator fresh(key,h,f); CHECK(sym::eq(loc.toView(),fresh.toView()),"reused locator equals a fresh one"); CHECK(sym::eq(loc.toView().substr(loc.toView().size()-f.size()),f),"reused locator ends with the new field"); }
  LocalityIndexLocator ix(key); for(int i=0;i<2;i++){ std::string f(fs[sym::choose("f",3)],'f'); ix.resetField(f); LocalityIndexLocator fr(key,f); CHECK(sym::eq(ix.toView(),fr.toView()),"reused index locator equals a fresh one"); } sym_reach("end");
}
// a buffer of exactly the right size, so that every access past the end is noticed
struct Exact { char* p; size_t n; Exact(const std::string&s):p((char*)malloc(s.size()?s.size():1)),n(s.size()){ if(n) memcpy(p,s.data(),n); } ~Exact(){ free(p); } };
static int match(const std::string&p,const std::string&s){ Exact a(p), b(s); return stringmatchlen(a.p,(int)a.n,b.p,(int)b.n,0); }
// the literal prefix of a pattern never excludes a key the pattern matches
HARNESS(pattern_prefix){
  static const char al[]="ab*?[]\\^-"; unsigned n=1+sym::choose("n",PL); std::string p=sym::over("p",n,al,sizeof al-1); std::string s=sym::str("s",0,3); std::string pre=extractPatternPrefix(p);
  if(match(p,s)){ sym_reach("match"); CHECK(startsWith(s,pre),"every matching key starts with the literal prefix of the pattern"); } else sym_reach("nomatch");
}
// glob matching means what it says
static bool glob(const char*p,size_t n,const char*s,size_t m){ if(n==0) return m==0; if(p[0]=='*'){ bool r=false; for(size_t k=0;k<=m;k++) r=sym_or(r,glob(p+1,n-1,s+k,m-k)); return r; } if(m==0) return false; bool rest=glob(p+1,n-1,s+1,m-1); return p[0]=='?'?rest:sym_and(p[0]==s[0],rest); }
HARNESS(pattern_glob){
  static const char al[]="ab*?"; std::string p=sym::over("p",1+sym::choose("n",PL),al,4); static const char sl[]="abc"; std::string s=sym::over("s",sym::choose("m",4),sl,3); CHECK((match(p,s)!=0)==glob(p.data(),p.size(),s.data(),s.size()),"wildcards match exactly what they describe"); sym_reach("end");
}
HARNESS(pattern_class){
  char a=(char)sym::range("a",'a','z'), b=(char)sym::range("b",'a','z'), c=(char)sym_u8("c"); unsigned k=sym::choose("kind",6); std::string p; bool want;
  if(k==0){ p="["; p.push_back(a); p.push_back(b); p+="]"; want=sym_or(c==a,c==b); } else if(k==1){ p="[^"; p.push_back(a); p+="]"; want=c!=a; } else if(k==2){ p="["; p.push_back(a); p+="-"; p.push_back(b); p+="]"; char lo=a<b?a:b, hi=a<b?b:a; want=sym_and(c>=lo,c<=hi); } else if(k==3){ p="\\"; p.push_back('*'); want=c=='*'; } else if(k==4){ p="[]"; want=false; } else { p="[\\]"; p.push_back(a); p+="]"; want=sym_or(c==']',c==a); }
  std::string s(1,c); CHECK((match(p,s)!=0)==want,"character classes match exactly what they describe"); CHECK(!match(p,""),"a class needs a character"); CHECK((match(p+"*",s+"zz")!=0)==want,"a class followed by anything"); sym_reach("end");
}
