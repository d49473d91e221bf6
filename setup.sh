#!/bin/bash
# builds the exporter; the checks build what is missing themselves
cd "$(dirname "$0")" && mkdir -p build && bash cppvc/build_exporter.sh build/exporter && sha256sum cppvc/exporter.cpp | cut -d' ' -f1 | tr -d '\n' > build/exporter.sha
