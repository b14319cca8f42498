// Stand-in for boost/mpi.hpp: declares (never defines) the part of the interface that k52 uses, so that the
// MPI configuration can be compiled to IR for analysis on a machine without MPI. Nothing here is ever run.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <boost/optional.hpp>
#include <boost/serialization/access.hpp>
#include <iostream>
#include <stdexcept>
#include <cstdlib>
#include <sstream>
namespace boost
{
namespace mpi
{
class status
{
public:
    int source() const;
    int tag() const;
};
class request
{
public:
    request();
    request(const request&);
    ~request();
    request& operator=(const request&);
    status wait();
    boost::optional<status> test();
    void cancel();
};
class environment
{
public:
    environment();
    ~environment();
    static std::string processor_name();
};
class communicator
{
public:
    communicator();
    ~communicator();
    int rank() const;
    int size() const;
    template <typename T> void send(int dest, int tag, const T& value) const;
    template <typename T> void send(int dest, int tag, const T* values, int n) const;
    template <typename T> request isend(int dest, int tag, const T& value) const;
    template <typename T> status recv(int source, int tag, T& value) const;
    template <typename T> status recv(int source, int tag, T* values, int n) const;
    template <typename T> request irecv(int source, int tag, T& value) const;
    void barrier() const;
};
}
}
