#!/bin/bash
# mkseed.sh ID: lays the demonstration template into seeded/ID
VV=${VV:-/verif}; D=$VV/seeded/$1; mkdir -p $D; cp $VV/tools/seedtpl/{demo.sh,root.rs,harness.rs} $D/; chmod +x $D/demo.sh
