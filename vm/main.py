import logging
import os
import sys
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.WARNING)

if __name__ == "__main__":
    # A tree which cannot even be imported gives no verdict
    from vm.core import main

    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
