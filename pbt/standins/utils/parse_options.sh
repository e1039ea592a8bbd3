# stand-in of Kaldi's: --name value sets the shell variable name, which has to exist
while [ $# -gt 0 ]; do
  case "$1" in
    --*)
      _n=$(echo "$1" | sed -e 's/^--//' -e 's/-/_/g')
      eval '[ -z "${'$_n'+xxx}" ]' && echo "$0: invalid option $1" 1>&2 && exit 1
      eval "$_n=\"\$2\""
      shift 2
      ;;
    *) break ;;
  esac
done
true
