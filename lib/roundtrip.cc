// roundtrip KIND IN OUT: read a unigram or perceptron model and write it again.
#include <apertium/unigram_tagger.h>
#include <apertium/perceptron_tagger.h>
#include <lttoolbox/lt_locale.h>
#include <cstring>
#include <fstream>
#include <iostream>
using namespace Apertium;
int main(int argc, char **argv)
{
  LtLocale::tryToSetLocale();
  TaggerFlags flags;
  std::ifstream in(argv[2]);
  std::ofstream out(argv[3]);
  if (argv[1][0] == 'p') {
    PerceptronTagger t(flags);
    t.deserialise(in);
    t.serialise(out);
  } else {
    UnigramTagger t(flags);
    t.setModel(argv[1][0] == '1' ? UnigramTaggerModel1 : argv[1][0] == '2' ? UnigramTaggerModel2 : UnigramTaggerModel3);
    t.deserialise(in);
    t.serialise(out);
  }
  return out.good() ? 0 : 3;
}
