/tmp/iso.sh timeout 850 python3 /tmp/rf/$1.py "${@:2}" 2>&1 | cut -c1-300
