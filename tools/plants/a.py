H='#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <memory>\n#include <vector>\n#include <string>\n#define MUST(c,m) do{ if(!(c)){ puts("DEMO FAILED: " m); return 1; } }while(0)\n'
J=H+'#include <rocksdb/db.h>\n#include "raft/RaftJournal.hh"\n#include "raft/RaftState.hh"\n#include "raft/RaftMembers.hh"\nusing namespace quarkdb;\nstatic std::vector<RaftServer> N(){ return {RaftServer("a",1),RaftServer("b",2),RaftServer("c",3)}; }\nstatic const char*P="./journal";\n'
JC="src/raft/RaftJournal.cc"; SC="src/raft/RaftState.cc"
S=[
dict(id="b01-vote-not-synced", property="P08", needs="a power failure after a vote that was recorded within the current term", breaks="a vote granted in the already recorded term is not synced to disk, so a power failure forgets it and the server can vote again",
 edits=[(JC,"commitBatch(batch, -1, true);","commitBatch(batch, -1, term != currentTerm);")],
 demo=J+'''#include <unistd.h>
#include <sys/syscall.h>
static thread_local int syncs=0;
extern "C" int fdatasync(int fd){ syncs++; return syscall(SYS_fdatasync,fd); }
extern "C" int fsync(int fd){ syncs++; return syscall(SYS_fsync,fd); }
int main(){ RaftJournal j(P,"cid",N(),0,FsyncPolicy::kSyncImportantUpdates); int s=syncs; MUST(j.setCurrentTerm(5,RaftServer()),"term"); MUST(syncs>s,"a new term must be synced before it is acknowledged"); s=syncs; MUST(j.setCurrentTerm(5,RaftServer("b",2)),"vote"); MUST(syncs>s,"a vote must be synced before it is acknowledged"); return 0; }
'''),
dict(id="b02-membership-rollback-boundary", property="P10", needs="truncating the log exactly at an uncommitted membership entry", breaks="the removed membership change stays in force although its log entry is gone",
 edits=[(JC,"if(from <= membershipEpoch) {","if(from < membershipEpoch) {")],
 demo=J+'''int main(){ RaftJournal j(P,"cid",N(),0,FsyncPolicy::kAsync); j.append(1,RaftEntry(0,"set","a","b")); std::string err; RaftMembership before=j.getMembership(); LogIndex ep=before.epoch; MUST(j.addObserver(0,RaftServer("x",9),err),"add"); j.append(3,RaftEntry(0,"set","a","c")); MUST(j.removeEntries(2),"remove"); MUST(j.getMembership().observers==before.observers,"members not rolled back"); MUST(j.getMembership().epoch==ep,"epoch not rolled back"); return 0; }
'''),
dict(id="b03-compare-after-trim", property="P07", needs="a leader re-sending entries that overlap the trimmed start of the follower's log", breaks="compareEntries compares shifted entries, so a conflicting entry behind a trimmed one is judged by the wrong entry",
 edits=[(JC,"if(entries[i-start] != entry) {","if(entries[i-startIndex] != entry) {")],
 demo=J+'''int main(){ RaftJournal j(P,"cid",N(),0,FsyncPolicy::kAsync); std::vector<RaftEntry> e; for(int i=1;i<=6;i++){ RaftEntry x(0,"set","k",std::to_string(i)); e.push_back(x); j.append(i,x); } j.setCommitIndex(5); MUST(j.compareEntries(1,e)==7,"identical entries"); j.trimUntil(3); MUST(j.compareEntries(1,e)==7,"identical entries reported as inconsistent after trimming"); return 0; }
'''),
dict(id="b04-second-leader-in-term", property="P11", needs="a candidate that recognises another leader of the same term before its own election result arrives", breaks="a candidate that already recognised another server as leader of the term still ascends, so the recognised leader of the term changes",
 edits=[(SC,"  if(!leader.empty()) {\n    // we have already recognized a leader for the current term..\n    // something is wrong, do nothing","  if(leader == myself) {\n    // we have already recognized a leader for the current term..\n    // something is wrong, do nothing")],
 demo=J+'''int main(){ RaftJournal j(P,"cid",N(),0,FsyncPolicy::kAsync); RaftState s(j,RaftServer("a",1)); MUST(s.observed(4,RaftServer()),"term"); MUST(s.becomeCandidate(4),"candidate"); s.observed(4,RaftServer("b",2)); s.ascend(4); MUST(s.getSnapshot()->leader==RaftServer("b",2),"the recognised leader of the term changed"); return 0; }
'''),
dict(id="b05-one-request-transaction", property="P01", needs="a MULTI/EXEC transaction of exactly one request", breaks="a real transaction of one request is replicated as the bare request and so loses its kind",
 edits=[("src/redis/Transaction.cc","if(phantom && requests.size() == 1) {","if(requests.size() == 1) {")],
 demo=H+'''#include "redis/Transaction.hh"
using namespace quarkdb;
int main(){ Transaction t; t.push_back(RedisRequest{"set","a","b"}); t.setPhantom(false); RedisRequest r=t.toRedisRequest(); MUST(r.size()==3&&r.getCommand()==RedisCommand::TX_READWRITE,"transaction of one request lost its kind"); Transaction u; u.fromRedisRequest(r); MUST(u==t,"round trip"); Transaction p; p.push_back(RedisRequest{"get","a"}); p.setPhantom(true); MUST(p.toRedisRequest().size()==2,"phantom"); return 0; }
'''),
dict(id="b06-unescaped-index-key", property="P04", needs="a locality hash whose key contains a single '#'", breaks="index entries of a locality hash with '#' in its key are stored unescaped, so they can no longer be told apart from entries of another key",
 edits=[("src/storage/KeyLocators.hh","    keyPrefixSize = appendEscapedString(keyBuffer, 1, redisKey);\n    keyBuffer[keyPrefixSize++] = char(InternalLocalityFieldType::kIndex);","    if(redisKey.find(\"##\") == std::string_view::npos) {\n      memcpy(keyBuffer.data()+1, redisKey.data(), redisKey.size());\n      keyBuffer[1+redisKey.size()] = '#';\n      keyBuffer[2+redisKey.size()] = '#';\n      keyPrefixSize = 3+redisKey.size();\n      keyBuffer.shrink(keyPrefixSize+1);\n    }\n    else {\n      keyPrefixSize = appendEscapedString(keyBuffer, 1, redisKey);\n    }\n    keyBuffer[keyPrefixSize++] = char(InternalLocalityFieldType::kIndex);")],
 demo=H+'''#include "storage/KeyLocators.hh"
#include "storage/ReverseLocator.hh"
using namespace quarkdb;
int main(){ for(std::string k: {"a","a#","#","b#c"}){ LocalityIndexLocator l(k,"f"); std::string s(l.toView()); ReverseLocator r(s); MUST(r.getKeyType()==KeyType::kLocalityHash&&r.getOriginalKey()==k,"key of an index entry does not read back"); } return 0; }
'''),
dict(id="b07-large-reuse-buffer", property="P05", needs="a heap-allocated key buffer that shrinks and then grows again to a size between its present and its allocated size", breaks="the buffer's capacity is forgotten on shrink, so growing again reuses ... the same buffer beyond its recorded size",
 edits=[("src/utils/SmartBuffer.hh","      memcpy(data(), oldHeapBuffer, realSize);","      memcpy(data(), oldHeapBuffer, realSize < StaticSize ? realSize : StaticSize);")],
 demo=H+'''#include "storage/KeyLocators.hh"
using namespace quarkdb;
int main(){ std::string key(700,'k'), f1(40,'x'), f2(900,'y'); for(size_t i=0;i<key.size();i++) key[i]='a'+i%26; FieldLocator l(KeyType::kHash,key,f1); l.resetField(f2); MUST(std::string(l.toView())=="b"+key+"##"+f2,"re-used locator differs from a fresh one"); return 0; }
'''),
dict(id="b08-prefix-ignores-question", property="P06", needs="a pattern whose first special character is ']' or '?'", breaks="the scan prefix keeps the character before... a '?' that follows a literal", 
 edits=[("src/storage/PatternMatching.hh","if(c == '?' || c == '*' || c == '[' || c == ']' || c == '\\\\') {\n      return","if((c == '?' && i + 1 != pattern.size()) || c == '*' || c == '[' || c == ']' || c == '\\\\') {\n      return")],
 demo=H+'''#include "storage/PatternMatching.hh"
using namespace quarkdb;
int main(){ MUST(extractPatternPrefix("ab*")=="ab","star"); MUST(extractPatternPrefix("a?c")=="a","question"); MUST(extractPatternPrefix("abc?")=="abc","a final ? must not be part of the literal prefix"); return 0; }
'''),
]
S[6]["breaks"]="growing a re-used heap buffer copies only the first bytes, so the rest of the key is garbage"; S[6]["needs"]="a key above the inline size and a re-use with a longer field"
S[7]["needs"]="a pattern that ends with '?'"; S[7]["breaks"]="a final '?' is taken as a literal, so keys the pattern matches are outside the scanned range"
