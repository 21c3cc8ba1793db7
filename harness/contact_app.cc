// The program with a contact search (brute.h) in place of the one that does
// nothing: the same command line, deck, mesh, integrator and output.
#include <nimble.h>

#include <iomanip>
#include <iostream>
#include <memory>

#include "brute.h"

namespace {

class ContactApp : public nimble::NimbleApplication
{
  std::unique_ptr<nimble::ContactInterface>
  CreateContactInterface() override
  {
    auto b    = std::make_unique<Brute>();
    b->status = true;
    return b;
  }
};

}  // namespace

int
main(int argc, char** argv)
{
  std::cout << std::setprecision(12);
  ContactApp app;
  return app.Run(argc, argv);
}
