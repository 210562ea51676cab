#!/usr/bin/env python3
"""Gives each generated message SerializeAsCord, which protobuf 3.21 lacks."""
import re, sys
p = sys.argv[1]
s = open(p).read()
s = re.sub(r"(  // @@protoc_insertion_point\(class_scope:)",
           r"  ::absl::Cord SerializeAsCord() const { return ::absl::Cord(SerializeAsString()); }\n\1", s)
s = re.sub(r"(#include <string>\n)", r"\1#include \"absl/strings/cord.h\"\n", s, count=1).replace('\\"', '"')
open(p, "w").write(s)
