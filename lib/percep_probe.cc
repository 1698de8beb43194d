// Shows two recorded findings of the perceptron's virtual machine.  Compiled
// without lib/san_ignore.txt; perceptron_spec.cc is part of this object.
#include <apertium/perceptron_spec.cc>
#include <cstring>
#include <new>
#include <sstream>
using namespace Apertium;
int main(int argc, char **argv)
{
  if (argc > 1 && !strcmp(argv[1], "uninit")) {
    alignas(PerceptronSpec::StackValue) char buf[sizeof(PerceptronSpec::StackValue)];
    memset(buf, 0xfe, sizeof buf);
    PerceptronSpec::StackValue *v = new (buf) PerceptronSpec::StackValue;
    *v = PerceptronSpec::StackValue(1);
  } else {
    PerceptronSpec spec;
    std::ostringstream out;
    spec.serialise(out);
  }
  puts("ok");
}
