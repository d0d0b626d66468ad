// Included ahead of every C++ source of /repo (g++ -include), to bridge the
// age of the code (2016-2018) and the libraries here. It holds no MOCC code.
#pragma once
// Several files use std::cout/std::endl or std containers without the header.
#include <iostream>
#include <H5Cpp.h>
// Until HDF5 1.8 H5File and Group shared CommonFG, which had openGroup(),
// createDataSet() and so on. In 1.10 H5File is a Group and those members are
// found there, so the base class that the code means is now Group.
#define CommonFG Group
