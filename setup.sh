#!/bin/bash
cd "$(dirname "$0")/sim" && cargo build --release --offline
