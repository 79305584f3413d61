// What the stand-in shows to the check: the workspace, the accounts, the faults.
#ifndef VERIF_FAKE_MATLAB_HPP
#define VERIF_FAKE_MATLAB_HPP
#include "engine.h"
#include <map>
#include <set>
#include <string>
#include <vector>
struct mxArray_tag {
  mxClassID cls = mxDOUBLE_CLASS;
  std::vector<mwSize> dims;
  std::vector<unsigned char> data;
};
namespace fakematlab {
struct World {
  std::map<std::string, mxArray> vars;       // the workspace
  std::set<const mxArray*> alive;            // arrays the client owns
  std::set<const Engine*> engines;           // open engines
  std::vector<std::string> commands;         // what was evaluated
  std::string answer;                        // what the next command prints
  std::string misuse;                        // the first wrong use of the interface
  bool failOpen = false, failPut = false, failEval = false, failClose = false;
  int opened = 0;
};
World& world();
mxArray make(mxClassID, const std::vector<mwSize>& dims);
size_t elementSize(mxClassID);
}
#endif
