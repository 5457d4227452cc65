#ifndef COORD_H
#define COORD_H
#include <map>
#include <string>
#include <vector>
#include <stdio.h>
struct Scenario {
  std::string id; int P;
  std::map<std::string, std::string> kv;
  std::vector<std::vector<std::string> > ops;
};
void rank_main(int fd, int rank);                 // in the rank process; never returns
int coordinate(const std::vector<Scenario> &, FILE *out);
#endif
