from qv.core import main

main()
