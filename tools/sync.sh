#!/bin/bash
# scratch copy of /repo in which fixes are prepared
rm -rf /tmp/wr; cp -a /repo /tmp/wr
