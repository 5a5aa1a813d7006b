#pragma once
#include "filestream.hpp"
#include "header.hpp"
#include "vlr.hpp"
