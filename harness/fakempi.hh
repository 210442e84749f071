#ifndef FAKEMPI_HH
#define FAKEMPI_HH
#include <mpi.h>
#include <string>
#include <vector>
namespace fakempi {
struct CommBroken {};                // thrown out of a collective that cannot complete
void begin(int nranks, std::vector<int> const& color = std::vector<int>());  // start a simulation; ranks of one color form a group
MPI_Comm group(int color);           // communicator of a group
void end();
void enter(int rank);                // calling thread becomes `rank`
void leave();                        // the rank has returned from the code under test
bool broken(std::string* diag);      // a collective could not complete
std::string trace(int rank);         // collectives the rank took part in
long collectives();
MPI_Comm other(int k);               // some more communicators (of one rank, outside simulations)
}
#endif
