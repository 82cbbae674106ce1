typedef std::function<void(Ctx&)> BFn;
unsigned argW(Ctx&c,unsigned i);
std::function<void(Ctx&)>* lookupBuiltin(Function*F){
  str n=F->getName().str();
  if(F->isIntrinsic()){ str base=n; auto it=builtins.find(base); while(it==builtins.end()){ size_t p=base.rfind('.'); if(p==str::npos||p<5) return nullptr; base=base.substr(0,p); it=builtins.find(base); } return &it->second; }
  if(!F->isDeclaration()) return nullptr;
  auto it=builtins.find(n); return it==builtins.end()?nullptr:&it->second;
}
void initBuiltins();
