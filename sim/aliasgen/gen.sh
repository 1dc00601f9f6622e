#!/bin/sh
# regenerates simrt/*/zz_alias.go (committed)
cd "$(dirname "$0")" || exit 1
export GOWORK=off
go build -o /tmp/aliasgen.bin . || exit 1
R=../simrt
/tmp/aliasgen.bin time $R/simtime ""
/tmp/aliasgen.bin math/rand $R/simrand ""
/tmp/aliasgen.bin math/rand/v2 $R/simrand2 ""
/tmp/aliasgen.bin runtime $R/simruntime "Stack,Breakpoint,AddCleanup"
/tmp/aliasgen.bin net $R/simnet "ListenTCP,ListenUDP,ListenUnix,ListenIP,ListenPacket,ListenMulticastUDP,ListenUnixgram,DialUDP,DialUnix,DialIP,FileConn,FileListener,FilePacketConn,LookupAddr,LookupCNAME,LookupMX,LookupNS,LookupPort,LookupSRV,LookupTXT,InterfaceByIndex,InterfaceByName,ResolveUDPAddr,ResolveIPAddr,ResolveUnixAddr,UnixListener,ListenConfig,DefaultResolver,Resolver"
/tmp/aliasgen.bin os $R/simos "NewFile,Chmod,Chown,Chtimes,Lchown,Link,Symlink,Readlink,Truncate,CreateTemp,MkdirTemp,Pipe,StartProcess,ProcAttr,ProcessState,CopyFS,Clearenv,Expand,ExpandEnv,Getppid,Getuid,Geteuid,Getgid,Getegid,Getgroups,Getpagesize,UserHomeDir,UserCacheDir,UserConfigDir,OpenInRoot,OpenRoot,Root,ErrProcessDone"
/tmp/aliasgen.bin path/filepath $R/simfilepath ""
rm -f /tmp/aliasgen.bin
