// An in-memory file system: regular files, directories, and the directories that hold the key-value stores.
#pragma once
#include <map>
#include <string>
#include <vector>
namespace symfs {
struct Node { bool dir=false; unsigned mode=0644; std::string data; };
struct FS { std::map<std::string,Node> nodes; long ops=0; long failAt=-1; long crashAt=-1; int failKind=0; // 0: nothing is done, 1: writes are cut short, 2: only closing fails
 unsigned long bavail=1ul<<30, bsize=4096, blocks=1ul<<31, bfree=1ul<<30; bool statfsFails=false, readError=false; std::vector<std::string> commands; };
FS& fs();
bool exists(const std::string&path); bool isDir(const std::string&path); void put(const std::string&path,const std::string&data,unsigned mode=0644); void dir(const std::string&path); void remove(const std::string&path); void move(const std::string&from,const std::string&to);
std::vector<std::string> list(const std::string&path);
void reset();
}
