#!/bin/bash
exec bash "$(dirname "$0")/../build.sh"
