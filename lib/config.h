/*
 * Autogenerated by the Meson build system.
 * Do not edit, your changes will be lost.
 */

#pragma once

#define DLB_CONFIGURE_ARGS "meson setup"

#define DLB_VERSION_MAJOR 3

#define DLB_VERSION_MINOR 5

#define DLB_VERSION_PATCH 0

#define DLB_VERSION_STRING "dlb 3.5.0+UNKNOWN (main)"

#define HAVE_EMMINTRIN_H

#define HAVE_EXECINFO_H

#define HAVE_IMMINTRIN_H

#define HAVE_STDATOMIC_H

#define MPI_LIBRARY_VERSION "Open MPI v4.1.6, package: Debian OpenMPI, ident: 4.1.6, repo rev: v4.1.6, Sep 30, 2023"

#define PACKAGE "dlb"

#define PACKAGE_BUGREPORT "dlb@bsc.es"

#define PACKAGE_NAME "dlb"

#define PACKAGE_VERSION "3.5.0+UNKNOWN"

#define VERSION "3.5.0+UNKNOWN"

