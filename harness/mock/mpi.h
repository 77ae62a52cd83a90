// Simulated message passing library, see s_mpi.cpp
#pragma once

typedef int MPI_Request;
#define MPI_REQUEST_NULL (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0

struct MPI_Status
{
    int MPI_SOURCE;
    int MPI_TAG;
    int MPI_ERROR;
    unsigned long serial;
};

int MPI_Testsome(int n, MPI_Request* requests, int* outcount, int* indices, MPI_Status* statuses);
