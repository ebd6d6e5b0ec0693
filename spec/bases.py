"""Hand-written valid argument lists per command ("contexts").

Every list accepted by a syntax version becomes a context: options are then
added to it one at a time and in combination.
"""
NET = ["--bootproto=static", "--ip=1.2.3.4", "--netmask=255.255.255.0", "--gateway=1.2.3.1"]
LV = ["--name=lv", "--vgname=vg"]
BASES = {
    'auth': [["--enablemd5"]], 'authconfig': [["--enablemd5"]], 'authselect': [["select", "sssd"]],
    'autopart': [[], ["--encrypted"], ["--type=lvm"], ["--encrypted", "--luks-version=luks2"], ["--nolvm"]],
    'autostep': [[]],
    'bootloader': [[], ["--location=mbr"], ["--location=none"], ["--password=pp", "--iscrypted"]],
    'btrfs': [["/mnt/b", "part.01"], ["none", "--data=0", "--metadata=1", "part.01", "part.02"],
              ["/mnt/s", "--subvol", "--name=sv", "vol"], ["/mnt/b", "--useexisting", "LABEL=x"]],
    'cdrom': [[]], 'clearpart': [[], ["--all"], ["--linux"], ["--drives=sda"], ["--list=sda1"]], 'cmdline': [[]],
    'device': [["eth", "3c589_cs"], ["3c589_cs"]], 'deviceprobe': [["aaa"]],
    'dmraid': [["--name=onamedata", "--dev=deva"]],
    'driverdisk': [["--source=http://h"], ["/dev/sda1"], ["--biospart=80p1"]],
    'eula': [["--agreed"]], 'fcoe': [["--nic=eth0"], ["--edd"]],
    'firewall': [[], ["--enabled"], ["--disabled"]],
    'firstboot': [[], ["--enabled"]],
    'graphical': [[]], 'group': [["--name=grp"]], 'halt': [[]],
    'harddrive': [["--dir=/install", "--partition=sda1"], ["--dir=/install", "--biospart=80p1"]],
    'hmc': [[]], 'ignoredisk': [["--drives=sda"], ["--only-use=sda"], ["--interactive"]],
    'install': [[]], 'interactive': [[]],
    'iscsi': [["--target=tgt", "--ipaddr=1.1.1.1"], ["--ipaddr=1.1.1.1"],
              ["--target=tgt", "--ipaddr=1.1.1.1", "--user=u", "--password=p"]],
    'iscsiname': [["iqn"]], 'key': [["012345"], ["--skip"]],
    'keyboard': [["us"], ["--vckeymap=us"], ["--xlayouts=us"]],
    'lang': [["en_US"]],
    'langsupport': [["--default=en_US"], ["en_US"], ["--default=en_US", "cs_CZ"]], 'lilo': [[]], 'lilocheck': [[]],
    'liveimg': [["--url=http://x"]], 'logging': [[], ["--host=h"]],
    'logvol': [["/mnt/l"] + LV + ["--size=10"], ["swap"] + LV + ["--recommended"],
               ["/mnt/l"] + LV + ["--useexisting"], ["/mnt/l"] + LV + ["--percent=50"],
               ["none"] + LV + ["--size=10", "--thinpool"],
               ["/mnt/l"] + LV + ["--size=10", "--thin", "--poolname=pool"],
               ["/mnt/l"] + LV + ["--size=10", "--cachesize=5", "--cachepvs=pv.01"],
               ["/mnt/l"] + LV + ["--size=10", "--encrypted"]],
    'mediacheck': [[]], 'module': [["--name=mod", "--stream=s"], ["--name=mod"], ["--name=mod", "--disable"]],
    'monitor': [["--hsync=1"], []],
    'mount': [["/dev/sda1", "/mnt/m"], ["/dev/sda1", "none"]], 'mouse': [["ps2"]],
    'multipath': [["--name=mp", "--device=/dev/sdc", "--rule=failover"]],
    'network': [["--bootproto=dhcp"], NET, ["--device=eth0"], ["--device=team0", "--teamslaves=p1,p2"],
                ["--device=bond0", "--bondslaves=a,b"], ["--device=br0", "--bridgeslaves=a"],
                ["--device=eth0", "--vlanid=171"], ["--hostname=h"], ["--device=eth0", "--bootproto=dhcp", "--activate"]],
    'nfs': [["--server=srv", "--dir=/d"]],
    'nvdimm': [["use", "--namespace=ns0"], ["use", "--blockdevs=pmem0"],
               ["reconfigure", "--namespace=ns0", "--mode=sector", "--sectorsize=512"]],
    'ostreesetup': [["--osname=o", "--url=http://u", "--ref=r"]],
    'part': [["/mnt/p", "--size=10"], ["swap", "--size=10"], ["swap", "--recommended"], ["raid.01", "--size=10"],
             ["pv.01", "--size=1"], ["/mnt/p", "--onpart=sda1"], ["/mnt/p", "--useexisting", "--onpart=sda1"],
             ["/mnt/p", "--size=10", "--encrypted"], ["/mnt/p", "--size=10", "--encrypted", "--luks-version=luks2"]],
    'poweroff': [[]],
    'raid': [["/mnt/r", "--device=md0", "--level=1", "raid.01"], ["/mnt/r", "--device=0", "--level=1", "raid.01"],
             ["/mnt/r", "--device=md0", "--useexisting"],
             ["pv.01", "--device=md0", "--level=0", "raid.01", "raid.02"],
             ["/mnt/r", "--device=md0", "--level=1", "--encrypted", "raid.01", "raid.02"]],
    'realm': [["join", "dom"], ["join", "--no-password", "dom"], ["join", "--one-time-password=pw", "dom"],
              ["join", "--client-software=sssd", "--computer-ou=OU", "dom"]],
    'reboot': [[]],
    'repo': [["--name=rp", "--baseurl=http://b"], ["--name=rp", "--mirrorlist=http://m"],
             ["--name=rp", "--metalink=http://m"], ["--name=rp"]],
    'reqpart': [[]], 'rescue': [[]],
    'rhsm': [["--organization=1", "--activation-key=k"]],
    'rootpw': [["pw"], ["--lock"], ["--iscrypted", "pw"]],
    'selinux': [[], ["--enforcing"]], 'services': [["--enabled=s"], ["--disabled=s"]], 'shutdown': [[]], 'skipx': [[]],
    'snapshot': [["vg/lv", "--name=sn", "--when=post-install"]],
    'sshkey': [["--username=root", "key"]], 'sshpw': [["--username=u", "pw"], ["--username=u", "--iscrypted", "pw"]],
    'syspurpose': [[], ["--role=r"]],
    'text': [[]], 'timesource': [["--ntp-server=n"], ["--ntp-pool=n"], ["--ntp-disable"]],
    'timezone': [["UTC"], ["--utc"], ["UTC", "--nontp"], ["UTC", "--ntpservers=n"]],
    'unsupported_hardware': [[]], 'updates': [[], ["http://u"]], 'upgrade': [[]],
    'url': [["--url=http://u"], ["--mirrorlist=http://u"], ["--metalink=http://u"]],
    'user': [["--name=u"], ["--name=u", "--password=p", "--iscrypted"]],
    'vnc': [[], ["--host=h", "--port=5"]],
    'volgroup': [["vg", "pv.01"], ["vg", "--useexisting"], ["vg", "--noformat"]],
    'xconfig': [["--startxonboot"], []],
    'zerombr': [[]],
    'zfcp': [["--devnum=1", "--wwpn=2", "--fcplun=3"],
             ["--devnum=1", "--scsiid=2", "--wwpn=2", "--scsilun=3", "--fcplun=3"], ["--devnum=1"]],
    'zipl': [["--secure-boot"], ["--no-secure-boot"], ["--force-secure-boot"], []],
}
BASES['partition'] = BASES['part']
