import sys

from vm.base import main

sys.exit(main())
